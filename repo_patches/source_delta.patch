From 8ddc2c49f31ea4116a30202993cd7d04c30ce830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:49 +0000
Subject: [PATCH 01/36] fix: parse host keys in ECDH replies

Key::parse required the bytes it had just handed to KeyBlob::parse to be
empty, so every well-formed key exchange reply was refused. KeyBlob::parse
already refuses trailing bytes.
---
 nora_ssh_core/src/message/key_exchange/ecdh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh_core/src/message/key_exchange/ecdh.rs b/nora_ssh_core/src/message/key_exchange/ecdh.rs
index 3db86c9..fd95e53 100644
--- a/nora_ssh_core/src/message/key_exchange/ecdh.rs
+++ b/nora_ssh_core/src/message/key_exchange/ecdh.rs
@@ -79,7 +79,7 @@ impl<'a> Key<'a> {
 	fn parse(data: &'a [u8]) -> Option<Self> {
 		let (name, data) = parse_string(data)?;
 		let blob = KeyBlob::parse(data)?;
-		data.is_empty().then(|| Self { name, blob })
+		Some(Self { name, blob })
 	}
 
 	fn serialize<'i>(&self, buf: &'i mut [u8]) -> Option<(usize, &'i mut [u8])> {
-- 
2.43.0


From b65926cd95f3f9cee7cb1b2c42cfc5050a6ba2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:49 +0000
Subject: [PATCH 02/36] fix: refuse packets that extend past the buffer

Packet::wrap_raw indexed the length and padding fields without checking that
they exist and accepted a packet length larger than the buffer, so that
accessing the payload panicked.
---
 nora_ssh_core/src/packet.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nora_ssh_core/src/packet.rs b/nora_ssh_core/src/packet.rs
index 601d64a..bbbe3da 100644
--- a/nora_ssh_core/src/packet.rs
+++ b/nora_ssh_core/src/packet.rs
@@ -69,12 +69,17 @@ impl<'a> Packet<'a> {
 		pad_with_packet_length: bool,
 		block_size: BlockSize,
 	) -> Result<Self, WrapRawError> {
+		if data.len() < 5 {
+			return Err(WrapRawError::Truncated);
+		}
 		let slf = Self { data };
 		let offt = usize::from(pad_with_packet_length) * 4;
 		if (slf.packet_len() + offt) % block_size.to_usize() != 0 {
 			Err(WrapRawError::BadAlignment)
 		} else if slf.padding_len() >= slf.packet_len() {
 			Err(WrapRawError::PaddingTooLarge)
+		} else if slf.packet_len() > slf.data.len() - 4 {
+			Err(WrapRawError::Truncated)
 		} else {
 			Ok(slf)
 		}
@@ -131,4 +136,5 @@ impl BlockSize {
 pub enum WrapRawError {
 	BadAlignment,
 	PaddingTooLarge,
+	Truncated,
 }
-- 
2.43.0


From dc5e4104ef793604c5a09b6a82e78001d6a3f3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:49 +0000
Subject: [PATCH 03/36] fix: do not panic on a packet as large as the buffer

The length field itself takes 4 bytes of the buffer: a client announcing a
length in the last 4 bytes of the range crashed the server.
---
 nora_ssh/src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh/src/packet.rs b/nora_ssh/src/packet.rs
index 439b092..34d42aa 100644
--- a/nora_ssh/src/packet.rs
+++ b/nora_ssh/src/packet.rs
@@ -13,7 +13,7 @@ pub async fn parse<'a, Io: AsyncReadExt + Unpin>(
 	let len = u32::from_be_bytes(buf[..4].try_into().unwrap())
 		.try_into()
 		.unwrap();
-	if len > buf.len() {
+	if len > buf.len() - 4 {
 		return Err(PacketParseError::TooLarge(len));
 	} else if len < 8 {
 		return Err(PacketParseError::TooSmall(len));
-- 
2.43.0


From 43e3b6a23c176a23ca796ad181dcda1e8f5a92e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:49 +0000
Subject: [PATCH 04/36] fix: recognise every line end before the identification
 string

An empty line, a line that is a proper prefix of "SSH-" or one with a doubled
CR made the parser miss the line end and with it the identification string
that follows; "SSSH-" was taken for "SSH-".
---
 nora_ssh/src/identifier.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nora_ssh/src/identifier.rs b/nora_ssh/src/identifier.rs
index c45a942..1104336 100644
--- a/nora_ssh/src/identifier.rs
+++ b/nora_ssh/src/identifier.rs
@@ -30,11 +30,10 @@ where
 		state = match (state, b) {
 			(State::EolLf, b'S') => State::S,
 			(State::S, b'S') => State::SS,
-			(State::SS, b'S') => State::SS,
 			(State::SS, b'H') => State::SSH,
 			(State::SSH, b'-') => break,
-			(State::Ignore, b'\r') => State::EolCr,
 			(State::EolCr, b'\n') => State::EolLf,
+			(_, b'\r') => State::EolCr,
 			_ => State::Ignore,
 		};
 	}
-- 
2.43.0


From 60ff2f2662a4b9c3af16aaa1d026b7d545060cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:24 +0000
Subject: [PATCH 05/36] fix: do not panic on malformed key exchange messages

A client sending anything but a well-formed ECDH init with a 32 byte key, or
a malformed message instead of NEWKEYS, crashed the server.
---
 nora_ssh/src/host.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 3ea0ae4..6b5b426 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -197,11 +197,12 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		let client_ephermal_public = Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_kex_ecdh_init()
-			.unwrap()
+			.ok_or(HandleNewClientError::ExpectedKeyExchangeEcdhInit)?
 			.client_ephermal_public_key;
-		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public).unwrap();
+		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public)
+			.map_err(|_| HandleNewClientError::InvalidEphermalKey)?;
 		let client_ephermal_public = x25519_dalek::PublicKey::from(client_ephermal_public);
 
 		let server_public_key = self.host_key.public.to_encoded_point(false);
@@ -279,7 +280,7 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_new_keys()
 			.ok_or(HandleNewClientError::ExpectedKeys)?;
 
@@ -294,6 +295,8 @@ pub enum HandleNewClientError {
 	PacketParseError(PacketParseError),
 	ExpectedKeyExchangeInit,
 	UnsupportedAlgorithms,
+	ExpectedKeyExchangeEcdhInit,
+	InvalidEphermalKey,
 	ExpectedKeys,
 	#[allow(dead_code)]
 	Read(io::Error), // FIXME how come this is unused?
-- 
2.43.0


From 4e0557a1ebd0023260ef676cd3681f8854ab7866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:25 +0000
Subject: [PATCH 06/36] fix: refuse an all-zero shared secret

RFC 8731 section 3: implementations MUST abort if the X25519 output is the
all-zero value, i.e. if the peer sent a point of low order.
---
 nora_ssh/src/host.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 6b5b426..eef36df 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -221,6 +221,9 @@ impl Host<p256::NistP256> {
 			.update(client_ephermal_public.as_bytes())
 			.update(server_ephermal_public.as_bytes());
 		let shared_secret = server_ephermal_secret.diffie_hellman(&client_ephermal_public);
+		if !shared_secret.was_contributory() {
+			return Err(HandleNewClientError::InvalidEphermalKey);
+		}
 		let hash = exchange_hash.update(shared_secret.as_bytes());
 		let sig = self.host_key.secret.sign(&hash);
 
-- 
2.43.0


From 34564cfee860dd2650ddb3f49a1df569418ea869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:26 +0000
Subject: [PATCH 07/36] fix: require that the client accepts uncompressed
 packets

Only "none" is supported. With a client that insists on compression the two
sides would not agree on the format of the payloads.
---
 nora_ssh/src/host.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index eef36df..cf09bf3 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -182,6 +182,14 @@ impl Host<p256::NistP256> {
 				.encryption_algorithms_server_to_client
 				.iter()
 				.any(|s| CIPHER_NAMES.iter().any(|&t| t == s))
+			|| !msg
+				.compression_algorithms_client_to_server
+				.iter()
+				.any(|s| s == "none")
+			|| !msg
+				.compression_algorithms_server_to_client
+				.iter()
+				.any(|s| s == "none")
 		// TODO we should handle the case where a HMAC needs to be selected if we're
 		// not using chacha20-poly1305
 		{
-- 
2.43.0


From bcf929433c4808ce36b8491b81d388ec0bf14f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:27 +0000
Subject: [PATCH 08/36] fix: use a random cookie in the key exchange init

RFC 4253 section 7.1: the cookie MUST be a random value generated by the
sender.
---
 nora_ssh/src/host.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index cf09bf3..77da748 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -112,6 +112,8 @@ impl Host<p256::NistP256> {
 		identifier::send(self.identifier, write)
 			.await
 			.map_err(HandleNewClientError::Write)?;
+		let mut cookie = [0; 16];
+		rng.fill_bytes(&mut cookie);
 		let mut host_pkt = [0; 256];
 		let host_pkt = Packet::wrap(
 			&mut host_pkt,
@@ -119,7 +121,7 @@ impl Host<p256::NistP256> {
 			true,
 			|buf| {
 				Message::KeyExchangeInit(KeyExchangeInit {
-					cookie: b"nomnommunchmunch",
+					cookie: &cookie,
 					kex_algorithms: b"curve25519-sha256".try_into().unwrap(),
 					server_host_key_algorithms: b"ecdsa-sha2-nistp256".try_into().unwrap(),
 					encryption_algorithms_client_to_server: b"chacha20-poly1305@openssh.com"
-- 
2.43.0


From 49efb2d3d3d6afe5dd5b46670b8418ed4a4c49bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:40 +0000
Subject: [PATCH 09/36] fix: ignore a wrongly guessed key exchange packet

RFC 4253 section 7.1: if first_kex_packet_follows is set and the guess was
wrong, the next packet MUST be silently ignored.
---
 nora_ssh/src/host.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 77da748..9c4a1dd 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -198,6 +198,19 @@ impl Host<p256::NistP256> {
 			return Err(HandleNewClientError::UnsupportedAlgorithms);
 		}
 
+		// The client may already have sent the first packet of the method it guessed. If the guess
+		// was wrong that packet must be ignored.
+		let mut receive_count = 3;
+		if msg.first_kex_packet_follows
+			&& (msg.kex_algorithms.iter().next() != ALGORITHM_NAMES.first().copied()
+				|| msg.server_host_key_algorithms.iter().next() != Some(self.host_key.name()))
+		{
+			packet::parse(&mut pkt_buf, read, true, BlockSize::B8)
+				.await
+				.map_err(HandleNewClientError::PacketParseError)?;
+			receive_count += 1;
+		}
+
 		// Generate temporary key for exchanging the secret
 		let server_ephermal_secret = x25519_dalek::EphemeralSecret::new(&mut rng);
 		let server_ephermal_public = x25519_dalek::PublicKey::from(&server_ephermal_secret);
@@ -269,7 +282,7 @@ impl Host<p256::NistP256> {
 		let receive_cipher = In(ChaCha20Poly1305::from_key_material(
 			&key_material,
 			Direction::ClientToServer,
-			3,
+			receive_count,
 		));
 		let send_cipher = Out(ChaCha20Poly1305::from_key_material(
 			&key_material,
-- 
2.43.0


From f308d19d1b514aa39cfcb6f34088ab968b4494c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:27 +0000
Subject: [PATCH 10/36] fix: end the connection on errors before and during
 authentication

A client that disconnects, sends an unexpected or malformed message or asks
for an unknown service, or a failing write, panicked the task that serves all
clients.
---
 nora_ssh/src/server.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 0234c21..ce498f5 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -101,9 +101,9 @@ where
 		let mut pkt_buf_mini = [0; 256];
 
 		// Wait for userauth
-		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.unwrap();
-		let msg = Message::parse(data).unwrap();
-		let srv = <&[u8]>::from(msg.into_service_request().unwrap());
+		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
+		let msg = Message::parse(data).map_err(|_| ())?;
+		let srv = <&[u8]>::from(msg.into_service_request().ok_or(())?);
 		match srv {
 			b"ssh-userauth" => {
 				let msg = Message::ServiceAccept(msg::ServiceAccept::new(srv));
@@ -115,9 +115,9 @@ where
 						&mut rng,
 					)
 					.await
-					.unwrap();
+					.map_err(|_| ())?;
 			}
-			_ => todo!(),
+			_ => return Err(()),
 		}
 
 		// Attempt authentication
@@ -126,7 +126,7 @@ where
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
 			let msg = Message::parse(data).map_err(|_| ())?;
-			let ua = msg.into_user_auth().unwrap().into_request().ok_or(())?;
+			let ua = msg.into_user_auth().ok_or(())?.into_request().ok_or(())?;
 
 			let auth = match ua.method {
 				Method::None => Auth::None,
@@ -160,7 +160,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					continue;
 				}
 				Method::PublicKeySigned { algorithm, key: key_blob, signature } => {
@@ -212,7 +212,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					return Ok(Client {
 						read: RefCell::new((rd, rd_enc)),
 						write: LocalMutex::new((wr, wr_enc)),
@@ -234,7 +234,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 				}
 			}
 		}
-- 
2.43.0


From d5db26734a900f58419537dc19e3251650081a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:28 +0000
Subject: [PATCH 11/36] fix: refuse unsupported authentication methods instead
 of panicking

---
 nora_ssh/src/server.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index ce498f5..7b7842e 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -129,7 +129,7 @@ where
 			let ua = msg.into_user_auth().ok_or(())?.into_request().ok_or(())?;
 
 			let auth = match ua.method {
-				Method::None => Auth::None,
+				Method::None => Some(Auth::None),
 				Method::PublicKeyBlob { algorithm, blob } => {
 					let (a, b) = data::parse_string(blob).ok_or(())?;
 					let (key, b) = data::parse_string(b).ok_or(())?;
@@ -192,15 +192,17 @@ where
 					)
 					.unwrap_or_else(|| todo!());
 
-					Auth::PublicKey { algorithm, signature, key, message }
+					Some(Auth::PublicKey { algorithm, signature, key, message })
 				}
-				Method::Password { password } => Auth::Password(password),
-				Method::PasswordRenew { .. } => todo!(),
-				Method::HostBased { .. } => todo!(),
-				Method::Other { .. } => todo!(),
+				Method::Password { password } => Some(Auth::Password(password)),
+				Method::PasswordRenew { .. } | Method::HostBased { .. } | Method::Other { .. } => None,
 			};
 
-			match self.handlers.authenticate(ua.user, ua.service, auth).await {
+			let user = match auth {
+				Some(auth) => self.handlers.authenticate(ua.user, ua.service, auth).await,
+				None => Err(()),
+			};
+			match user {
 				Ok(user) => {
 					// Accept
 					let msg = Message::UserAuth(UserAuth::Success(Success));
-- 
2.43.0


From 4d60a545cee77e0dc7f38f924d673880bd162f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:30 +0000
Subject: [PATCH 12/36] fix: do not panic on large public keys and user names

The reply to a public key query echoes the key, which did not fit in 256
bytes, and the data to verify did not fit in 1024 bytes.
---
 nora_ssh/src/server.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 7b7842e..601afa3 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -98,7 +98,8 @@ where
 
 		let mut pkt_buf = Vec::new();
 		pkt_buf.resize(35000, 0);
-		let mut pkt_buf_mini = [0; 256];
+		let mut pkt_buf_mini = Vec::new();
+		pkt_buf_mini.resize(35000, 0);
 
 		// Wait for userauth
 		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
@@ -121,7 +122,9 @@ where
 		}
 
 		// Attempt authentication
-		let mut message = [0; 1024];
+		// Large enough for anything that fits in pkt_buf, plus the session identifier.
+		let mut message = Vec::new();
+		message.resize(pkt_buf.len() + 4 + session_identifier.len(), 0);
 		loop {
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
@@ -190,7 +193,7 @@ where
 						algorithm,
 						key_blob,
 					)
-					.unwrap_or_else(|| todo!());
+					.ok_or(())?;
 
 					Some(Auth::PublicKey { algorithm, signature, key, message })
 				}
-- 
2.43.0


From 18e0ae703772349051709424c91d10357f62c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:31 +0000
Subject: [PATCH 13/36] fix: answer unusable public keys with a failure

RFC 4252 section 7: a server that does not support the algorithm or key MUST
simply reject the request. Keys with more than one component (RSA, ECDSA), as
offered by clients holding several keys, ended the connection.
---
 nora_ssh/src/server.rs | 54 +++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 601afa3..ff5dc9c 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -134,20 +134,16 @@ where
 			let auth = match ua.method {
 				Method::None => Some(Auth::None),
 				Method::PublicKeyBlob { algorithm, blob } => {
-					let (a, b) = data::parse_string(blob).ok_or(())?;
-					let (key, b) = data::parse_string(b).ok_or(())?;
-					if !b.is_empty() {
-						return Err(());
-					}
-					if algorithm != a {
-						return Err(());
-					}
+					let exists = match parse_pair(blob) {
+						Some((a, key)) if algorithm == a => {
+							self.handlers
+								.public_key_exists(ua.user, ua.service, algorithm, key)
+								.await
+						}
+						_ => Err(()),
+					};
 					let msg = Message::UserAuth(
-						match self
-							.handlers
-							.public_key_exists(ua.user, ua.service, algorithm, key)
-							.await
-						{
+						match exists {
 							Ok(()) => UserAuth::PublicKeyOk(PublicKeyOk { algorithm, blob }),
 							Err(()) => UserAuth::Failure(Failure {
 								alternative_methods: b"publickey,password".try_into().unwrap(),
@@ -167,24 +163,6 @@ where
 					continue;
 				}
 				Method::PublicKeySigned { algorithm, key: key_blob, signature } => {
-					let (a, b) = data::parse_string(key_blob).ok_or(())?;
-					let (key, b) = data::parse_string(b).ok_or(())?;
-					if !b.is_empty() {
-						return Err(());
-					}
-					if algorithm != a {
-						return Err(());
-					}
-
-					let (a, b) = data::parse_string(signature).ok_or(())?;
-					let (signature, b) = data::parse_string(b).ok_or(())?;
-					if !b.is_empty() {
-						return Err(());
-					}
-					if algorithm != a {
-						return Err(());
-					}
-
 					let message = msg::userauth::format_sign_data(
 						&mut message,
 						&session_identifier,
@@ -195,7 +173,12 @@ where
 					)
 					.ok_or(())?;
 
-					Some(Auth::PublicKey { algorithm, signature, key, message })
+					match (parse_pair(key_blob), parse_pair(signature)) {
+						(Some((a, key)), Some((b, signature))) if algorithm == a && algorithm == b => {
+							Some(Auth::PublicKey { algorithm, signature, key, message })
+						}
+						_ => None,
+					}
 				}
 				Method::Password { password } => Some(Auth::Password(password)),
 				Method::PasswordRenew { .. } | Method::HostBased { .. } | Method::Other { .. } => None,
@@ -246,6 +229,13 @@ where
 	}
 }
 
+/// Parse a key or signature blob, i.e. the name of an algorithm followed by one string.
+fn parse_pair(blob: &[u8]) -> Option<(&[u8], &[u8])> {
+	let (algorithm, b) = data::parse_string(blob)?;
+	let (value, b) = data::parse_string(b)?;
+	b.is_empty().then(|| (algorithm, value))
+}
+
 struct Client<Handlers>
 where
 	Handlers: ServerHandlers,
-- 
2.43.0


From e21f2b72fad9f2ca8993c7b2ebdcb254a324ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:32 +0000
Subject: [PATCH 14/36] fix: accept ignore and debug messages during
 authentication

RFC 4253 section 11.2: all implementations MUST understand (and ignore) this
message at any time.
---
 nora_ssh/src/server.rs | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index ff5dc9c..25bc665 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -102,23 +102,29 @@ where
 		pkt_buf_mini.resize(35000, 0);
 
 		// Wait for userauth
-		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
-		let msg = Message::parse(data).map_err(|_| ())?;
-		let srv = <&[u8]>::from(msg.into_service_request().ok_or(())?);
-		match srv {
-			b"ssh-userauth" => {
-				let msg = Message::ServiceAccept(msg::ServiceAccept::new(srv));
-				wr_enc
-					.send(
-						&mut pkt_buf_mini,
-						|buf| msg.serialize(buf).unwrap().0.len(),
-						&mut wr,
-						&mut rng,
-					)
-					.await
-					.map_err(|_| ())?;
+		loop {
+			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
+			let msg = Message::parse(data).map_err(|_| ())?;
+			if matches!(msg, Message::Ignore(_) | Message::Debug(_)) {
+				continue;
+			}
+			let srv = <&[u8]>::from(msg.into_service_request().ok_or(())?);
+			match srv {
+				b"ssh-userauth" => {
+					let msg = Message::ServiceAccept(msg::ServiceAccept::new(srv));
+					wr_enc
+						.send(
+							&mut pkt_buf_mini,
+							|buf| msg.serialize(buf).unwrap().0.len(),
+							&mut wr,
+							&mut rng,
+						)
+						.await
+						.map_err(|_| ())?;
+					break;
+				}
+				_ => return Err(()),
 			}
-			_ => return Err(()),
 		}
 
 		// Attempt authentication
@@ -129,6 +135,9 @@ where
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
 			let msg = Message::parse(data).map_err(|_| ())?;
+			if matches!(msg, Message::Ignore(_) | Message::Debug(_)) {
+				continue;
+			}
 			let ua = msg.into_user_auth().ok_or(())?.into_request().ok_or(())?;
 
 			let auth = match ua.method {
-- 
2.43.0


From 10b8b4d35d79937e7977aeb6d5289d6b34465658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:47 +0000
Subject: [PATCH 15/36] fix: do not lose wake-ups of tasks waiting for the
 mutex

A waiter registered its waker only once, so if another task took the lock
between the wake-up and the poll it was never woken again. Likewise the
wake-up was lost if the woken waiter had been dropped or the task moved to
another waker. Register on every failed attempt and wake all waiters.
---
 nora_ssh/src/sync.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index 4e7aff5..91d2cfb 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -17,39 +17,34 @@ impl<T> LocalMutex<T> {
 	}
 
 	pub fn lock(&self) -> LocalMutexGuardFuture<'_, T> {
-		LocalMutexGuardFuture { inner: self, registered: false }
+		LocalMutexGuardFuture { inner: self }
 	}
 
-	fn push_waker(&self, waker: Waker) {
+	fn push_waker(&self, waker: &Waker) {
 		let mut q = self.queue.take();
-		q.push(waker);
+		if !q.iter().any(|w| w.will_wake(waker)) {
+			q.push(waker.clone());
+		}
 		self.queue.set(q);
 	}
 
-	fn pop_waker(&self) -> Option<Waker> {
-		let mut q = self.queue.take();
-		let w = q.pop();
-		self.queue.set(q);
-		w
+	fn wake_all(&self) {
+		self.queue.take().into_iter().for_each(Waker::wake);
 	}
 }
 
 pub struct LocalMutexGuardFuture<'a, T> {
 	inner: &'a LocalMutex<T>,
-	registered: bool,
 }
 
 impl<'a, T> Future for LocalMutexGuardFuture<'a, T> {
 	type Output = LocalMutexGuard<'a, T>;
 
-	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
 		match self.inner.inner.try_borrow_mut() {
 			Ok(lock) => Poll::Ready(LocalMutexGuard { inner: self.inner, lock }),
 			Err(_) => {
-				if !self.registered {
-					self.inner.push_waker(cx.waker().clone());
-					self.registered = true;
-				}
+				self.inner.push_waker(cx.waker());
 				Poll::Pending
 			}
 		}
@@ -77,6 +72,6 @@ impl<'a, T> DerefMut for LocalMutexGuard<'a, T> {
 
 impl<'a, T> Drop for LocalMutexGuard<'a, T> {
 	fn drop(&mut self) {
-		self.inner.pop_waker().map(|w| w.wake());
+		self.inner.wake_all();
 	}
 }
-- 
2.43.0


From 2d8ceba92d2b1c88abdeccf4b158c4d5ce8a1a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:49 +0000
Subject: [PATCH 16/36] fix: do not panic on unexpected messages of
 authenticated clients

Unknown message types and channels, data for a channel without a running
process, a process that closed its stdin, window adjustments, debug messages
and so on all panicked the task that serves all clients. Ignore what may be
ignored and end the connection for what is a protocol error.
---
 nora_ssh/src/server.rs | 60 ++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 25bc665..50a66b3 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -19,7 +19,7 @@ use nora_ssh_core::{
 	cipher::{ChaCha20Poly1305, Cipher},
 	data,
 	identifier::Identifier,
-	message::{self as msg, channel::session::SessionRequest, Message},
+	message::{self as msg, channel::session::SessionRequest, Message, MessageParseError},
 };
 use rand::{CryptoRng, RngCore, SeedableRng};
 use subtle::CtOption;
@@ -300,7 +300,8 @@ where
 			channel: u32,
 		) -> (Io, [u8; 256], usize, u32) {
 			let mut buf = [0; 256];
-			let l = io.read(&mut buf).await.unwrap();
+			// Treat errors as the end of the output.
+			let l = io.read(&mut buf).await.unwrap_or(0);
 			(io, buf, l, channel)
 		}
 		let mut buf = Vec::new();
@@ -364,7 +365,7 @@ where
 		let (rd, enc) = &mut *read;
 		loop {
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
-			match Message::parse(data).unwrap() {
+			match Message::parse(data).map_err(ReceiveError::Message)? {
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
 						peer_channel: o.sender_channel,
@@ -386,7 +387,9 @@ where
 				}
 				Message::Channel(msg::Channel::Request(r)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(r.recipient_channel).unwrap();
+					let ch = channels
+						.get_mut(r.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel)?;
 					// TODO check if the channel is actually a session channel
 					let req = match SessionRequest::parse(r.ty, r.data) {
 						Err(_) => todo!(),
@@ -474,39 +477,43 @@ where
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(d.recipient_channel).unwrap();
-					ch.stdin.as_mut().unwrap().write(d.data).await.unwrap();
+					let ch = channels
+						.get_mut(d.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel)?;
+					if let Some(stdin) = ch.stdin.as_mut() {
+						if stdin.write(d.data).await.is_err() {
+							ch.stdin = None;
+						}
+					}
 				}
-				Message::Channel(msg::Channel::ExtendedData(_)) => todo!(),
+				Message::Channel(msg::Channel::ExtendedData(_)) => {}
 				Message::Channel(msg::Channel::Eof(e)) => {
 					self.channels
 						.borrow_mut()
 						.get_mut(e.recipient_channel)
-						.unwrap()
+						.ok_or(ReceiveError::UnknownChannel)?
 						.stdin
 						.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
 					self.channels.borrow_mut().remove(c.recipient_channel);
 				}
-				Message::Channel(msg::Channel::OpenConfirmation(_)) => todo!(),
-				Message::Channel(msg::Channel::OpenFailure(_)) => todo!(),
-				Message::Channel(msg::Channel::WindowAdjust(_)) => todo!(),
-				Message::Channel(msg::Channel::Success(_)) => todo!(),
-				Message::Channel(msg::Channel::Failure(_)) => todo!(),
+				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
 				Message::Disconnect(_) => return Ok(Action::Exit),
-				Message::Ignore(_) => {}
-				Message::Unimplemented(_) => todo!(),
-				Message::Debug(_) => todo!(),
-				Message::KeyExchangeInit(_) => todo!(),
-				Message::KeyExchangeEcdhInit(_) => todo!(),
-				Message::KeyExchangeEcdhReply(_) => todo!(),
-				Message::NewKeys(_) => todo!(),
-				Message::ServiceRequest(req) => {
-					todo!("{:?}", core::str::from_utf8(req.into()))
-				}
-				Message::ServiceAccept(_) => todo!(),
-				Message::UserAuth(_) => todo!(),
+				Message::Ignore(_) | Message::Unimplemented(_) | Message::Debug(_) => {}
+				// RFC 4252 section 5.1: to be silently ignored after authentication.
+				Message::UserAuth(msg::UserAuth::Request(_)) => {}
+				Message::Channel(msg::Channel::OpenConfirmation(_))
+				| Message::Channel(msg::Channel::OpenFailure(_))
+				| Message::Channel(msg::Channel::Success(_))
+				| Message::Channel(msg::Channel::Failure(_))
+				| Message::KeyExchangeInit(_)
+				| Message::KeyExchangeEcdhInit(_)
+				| Message::KeyExchangeEcdhReply(_)
+				| Message::NewKeys(_)
+				| Message::ServiceRequest(_)
+				| Message::ServiceAccept(_)
+				| Message::UserAuth(_) => return Err(ReceiveError::Unexpected),
 			}
 		}
 	}
@@ -562,6 +569,9 @@ pub enum ReceiveError {
 	In(InError),
 	Out(OutError),
 	Io(io::Error),
+	Message(MessageParseError),
+	UnknownChannel,
+	Unexpected,
 }
 
 #[cfg_attr(not(feature = "no_send"), async_trait::async_trait)]
-- 
2.43.0


From 75e2b3f2e33cbd8704fd72c62c3afeb68375bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:50 +0000
Subject: [PATCH 17/36] fix: answer session requests that cannot be satisfied
 with a failure

A failing spawn, an unknown or unsupported request panicked the task that
serves all clients, and a second exec or shell request on a channel replaced
the stdin of the first (RFC 4254 section 6.5: only one can succeed).
---
 nora_ssh/src/server.rs | 65 ++++++++++++------------------------------
 1 file changed, 19 insertions(+), 46 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 50a66b3..2956801 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -370,6 +370,7 @@ where
 					let ch = self.channels.borrow_mut().insert(Channel {
 						peer_channel: o.sender_channel,
 						ty: ChannelType::Session, // TODO actually check
+						spawned: false,
 						stdin: None,
 					});
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
@@ -391,37 +392,23 @@ where
 						.get_mut(r.recipient_channel)
 						.ok_or(ReceiveError::UnknownChannel)?;
 					// TODO check if the channel is actually a session channel
-					let req = match SessionRequest::parse(r.ty, r.data) {
-						Err(_) => todo!(),
-						Ok(r) => r,
+					let ty = match SessionRequest::parse(r.ty, r.data) {
+						Ok(SessionRequest::Shell) => Some(SpawnType::Shell),
+						Ok(SessionRequest::Exec { command }) => Some(SpawnType::Exec { command }),
+						// Not supported (yet)
+						_ => None,
 					};
-					let (msg, stdout, stderr, wait) = match req {
-						SessionRequest::Shell => {
-							let io = server
-								.handlers
-								.spawn(&mut *self.user.borrow_mut(), SpawnType::Shell, &[])
-								.await
-								.unwrap();
-							ch.stdin = io.stdin;
-							(
-								Message::Channel(msg::Channel::Success(msg::channel::Success {
-									recipient_channel: ch.peer_channel,
-								})),
-								io.stdout,
-								io.stderr,
-								Some(io.wait),
-							)
-						}
-						SessionRequest::Exec { command } => {
-							let io = server
-								.handlers
-								.spawn(
-									&mut *self.user.borrow_mut(),
-									SpawnType::Exec { command },
-									&[],
-								)
-								.await
-								.unwrap();
+					let io = match ty {
+						Some(ty) if !ch.spawned => server
+							.handlers
+							.spawn(&mut *self.user.borrow_mut(), ty, &[])
+							.await
+							.ok(),
+						_ => None,
+					};
+					let (msg, stdout, stderr, wait) = match io {
+						Some(io) => {
+							ch.spawned = true;
 							ch.stdin = io.stdin;
 							(
 								Message::Channel(msg::Channel::Success(msg::channel::Success {
@@ -432,16 +419,7 @@ where
 								Some(io.wait),
 							)
 						}
-						SessionRequest::Pty { .. } => (
-							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
-								recipient_channel: ch.peer_channel,
-							})),
-							None,
-							None,
-							None,
-						),
-						SessionRequest::X11 { .. } => todo!(),
-						SessionRequest::Env { .. } => (
+						None => (
 							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
 								recipient_channel: ch.peer_channel,
 							})),
@@ -449,12 +427,6 @@ where
 							None,
 							None,
 						),
-						SessionRequest::Subsystem { .. } => todo!(),
-						SessionRequest::WindowChange { .. } => todo!(),
-						SessionRequest::XonXoff { .. } => todo!(),
-						SessionRequest::Signal { .. } => todo!(),
-						SessionRequest::ExitStatus { .. } => todo!(),
-						SessionRequest::ExitSignal { .. } => todo!(),
 					};
 					let channel = ch.peer_channel;
 					drop(channels);
@@ -540,6 +512,7 @@ where
 	peer_channel: u32,
 	#[allow(dead_code)]
 	ty: ChannelType,
+	spawned: bool,
 	stdin: Option<Stdin>,
 }
 
-- 
2.43.0


From bae8f489e17592e36d558525543092545e719865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:52 +0000
Subject: [PATCH 18/36] fix: only accept channels of type "session"

---
 nora_ssh/src/server.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 2956801..5201519 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -366,10 +366,23 @@ where
 		loop {
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
 			match Message::parse(data).map_err(ReceiveError::Message)? {
+				Message::Channel(msg::Channel::Open(o)) if o.ty != b"session" => {
+					let msg = Message::Channel(msg::Channel::OpenFailure(
+						msg::channel::OpenFailure {
+							recipient_channel: o.sender_channel,
+							reason: msg::channel::OpenFailureReason::UnknownChannelType,
+							description: "",
+							language: b"",
+						},
+					));
+					self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+						.await
+						.map_err(ReceiveError::Out)?;
+				}
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
 						peer_channel: o.sender_channel,
-						ty: ChannelType::Session, // TODO actually check
+						ty: ChannelType::Session,
 						spawned: false,
 						stdin: None,
 					});
-- 
2.43.0


From 621bb214ed89afd1dee6c6c7dac53ff98891a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:45 +0000
Subject: [PATCH 19/36] fix: write all channel data to stdin

AsyncWrite::write may accept only a part of the data, e.g. if the pipe to the
process is nearly full. The rest was dropped.
---
 nora_ssh/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 5201519..47ed69c 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -466,7 +466,7 @@ where
 						.get_mut(d.recipient_channel)
 						.ok_or(ReceiveError::UnknownChannel)?;
 					if let Some(stdin) = ch.stdin.as_mut() {
-						if stdin.write(d.data).await.is_err() {
+						if stdin.write_all(d.data).await.is_err() {
 							ch.stdin = None;
 						}
 					}
-- 
2.43.0


From 5616d5af6fd707523508e9c2f2a1918ea2f9edf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:46 +0000
Subject: [PATCH 20/36] fix: keep packets and channel messages intact while
 output is forwarded

- Every time a process produced output or exited, the future receiving packets
  was dropped and with it the part of a packet, reply or stdin data it was
  working on, which desynchronised the connection. Keep it alive.
- CLOSE was sent as soon as stdout ended: remaining stderr output and the exit
  status came after it or were lost. Send EOF after all output and CLOSE last
  (RFC 4254 sections 5.3 and 6.10).
- stderr was sent as stdout. Send it as extended data (section 5.2).
- A CLOSE from the client was not answered (section 5.3), and the output of
  its process could end up on a new channel that reuses the number.
- A process without stdout and stderr was never reaped.
---
 nora_ssh/src/server.rs | 315 ++++++++++++++++++++++++++---------------
 1 file changed, 202 insertions(+), 113 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 47ed69c..1e2a718 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -4,14 +4,19 @@ use crate::{
 	host::{self, Host, HostKey, InError, OutError, SignKey},
 	sync::LocalMutex,
 };
-use core::{cell::RefCell, future::Future, pin::Pin};
+use core::{
+	cell::{Cell, RefCell},
+	future::Future,
+	pin::Pin,
+	task::{Poll, Waker},
+};
 use ecdsa::{hazmat::SignPrimitive, SignatureSize};
 use elliptic_curve::{
 	ops::{Invert, Reduce},
 	Curve, Scalar,
 };
 use futures::{
-	io, select, stream::FuturesUnordered, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt,
+	future::poll_fn, io, join, pin_mut, select, stream::FuturesUnordered, try_join, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt,
 	FutureExt, StreamExt,
 };
 use generic_array::ArrayLength;
@@ -22,6 +27,7 @@ use nora_ssh_core::{
 	message::{self as msg, channel::session::SessionRequest, Message, MessageParseError},
 };
 use rand::{CryptoRng, RngCore, SeedableRng};
+use std::rc::Rc;
 use subtle::CtOption;
 
 pub struct Server<Handlers>
@@ -256,7 +262,7 @@ where
 	read: RefCell<(Handlers::Read, host::In<Handlers::Crypt>)>,
 	write: LocalMutex<(Handlers::Write, host::Out<Handlers::Crypt>)>,
 	user: RefCell<Handlers::User>,
-	channels: RefCell<Arena<Channel<Handlers::Stdin>>>,
+	channels: RefCell<Arena<Rc<Channel<Handlers::Stdin>>>>,
 	rng: RefCell<Handlers::Rng>,
 }
 
@@ -277,90 +283,150 @@ where
 		enc.send(buf, fill, wr, &mut *self.rng.borrow_mut()).await
 	}
 
+	/// Send a message on a channel, unless the channel has already been closed from our side.
 	async fn send_channel(
 		&self,
 		buf: &mut [u8],
-		channel: u32,
-		data: &[u8],
-	) -> Result<(), OutError> {
-		let msg = Message::Channel(msg::Channel::Data(msg::channel::Data {
-			recipient_channel: channel,
-			data,
-		}));
-		self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
-			.await
+		channel: &Channel<Handlers::Stdin>,
+		msg: msg::Channel<'_>,
+	) -> Result<(), ReceiveError> {
+		let mut l = self.write.lock().await;
+		if channel.close_sent.get() {
+			return Ok(());
+		}
+		channel
+			.close_sent
+			.set(matches!(msg, msg::Channel::Close(_)));
+		let (wr, enc) = &mut *l;
+		enc.send(
+			buf,
+			|buf| Message::Channel(msg).serialize(buf).unwrap().0.len(),
+			wr,
+			&mut *self.rng.borrow_mut(),
+		)
+		.await
+		.map_err(ReceiveError::Out)
 	}
 
 	async fn start(self, server: &Server<Handlers>) -> Result<(), ReceiveError> {
-		let mut stdout_inputs = FuturesUnordered::new();
-		let mut stderr_inputs = FuturesUnordered::new();
-		let mut wait_exit = FuturesUnordered::new();
-		async fn read<Io: AsyncRead + Unpin>(
-			mut io: Io,
-			channel: u32,
-		) -> (Io, [u8; 256], usize, u32) {
-			let mut buf = [0; 256];
-			// Treat errors as the end of the output.
-			let l = io.read(&mut buf).await.unwrap_or(0);
-			(io, buf, l, channel)
-		}
+		// A packet may have been received or sent partially, so the future must not be dropped
+		// while other events are being handled.
+		let receive = |mut buf: Vec<u8>| {
+			let slf = &self;
+			async move {
+				let ret = slf.receive(&mut buf, server).await;
+				(ret, buf)
+			}
+			.boxed_local()
+			.fuse()
+		};
 		let mut buf = Vec::new();
 		buf.resize(35000, 0);
+		let mut received = receive(buf);
+		let mut sessions = FuturesUnordered::new();
 		loop {
 			select! {
-				ret = self.receive(&mut buf, server).fuse() => match ret {
-					Ok(Action::Exit) => return Ok(()),
-					Ok(Action::NewIo { stdout, stderr, wait, channel }) => {
-						if let Some(stdout) = stdout {
-							stdout_inputs.push(read(stdout, channel));
-						}
-						if let Some(stderr) = stderr {
-							stderr_inputs.push(read(stderr, channel));
-						}
-						wait_exit.push(async move { (wait.await, channel) });
+				(ret, buf) = received => match ret? {
+					Action::Exit => return Ok(()),
+					Action::NewIo { stdout, stderr, wait, channel } => {
+						sessions.push(self.session(stdout, stderr, wait, channel));
+						received = receive(buf);
 					}
-					Err(e) => return Err(e),
 				},
-				(stdout, data, l, channel) = stdout_inputs.select_next_some() => {
-					if l > 0 {
-						stdout_inputs.push(read(stdout, channel));
-						self.send_channel(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
-					} else {
-						self.send(&mut buf, |buf| Message::Channel(msg::Channel::Eof(msg::channel::Eof {
-							recipient_channel: channel,
-						})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-						self.send(&mut buf, |buf| Message::Channel(msg::Channel::Close(msg::channel::Close {
-							recipient_channel: channel,
-						})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-					}
-				},
-				(stderr, data, l, channel) = stderr_inputs.select_next_some() => {
-					if l > 0 {
-						stderr_inputs.push(read(stderr, channel));
-						self.send_channel(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
-					}
-				},
-				(status, channel) = wait_exit.select_next_some() => {
-					let mut data = [0; 256];
-					let (ty, l) = SessionRequest::ExitStatus {
-						status,
-					}.serialize(&mut data).unwrap();
-					self.send(&mut buf, |buf| Message::Channel(msg::Channel::Request(msg::channel::Request {
-						recipient_channel: channel,
-						ty,
-						data: &data[..l],
-						want_reply: false,
-					})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-				}
+				ret = sessions.select_next_some() => ret?,
 			}
 		}
 	}
 
+	/// Forward the output of a process until it has exited or the peer closes the channel.
+	async fn session(
+		&self,
+		stdout: Option<Handlers::Stdout>,
+		stderr: Option<Handlers::Stderr>,
+		wait: Pin<Box<dyn Future<Output = u32>>>,
+		channel: Rc<Channel<Handlers::Stdin>>,
+	) -> Result<(), ReceiveError> {
+		let recipient_channel = channel.peer_channel;
+		let mut buf = [0; 512];
+		let output = async {
+			try_join!(
+				self.forward(stdout, None, &channel),
+				self.forward(stderr, Some(STDERR), &channel)
+			)?;
+			let msg = msg::Channel::Eof(msg::channel::Eof { recipient_channel });
+			self.send_channel(&mut [0; 512], &channel, msg).await
+		};
+		let finish = async {
+			let (ret, status) = join!(output, wait);
+			ret?;
+			let mut data = [0; 256];
+			let (ty, l) = SessionRequest::ExitStatus { status }
+				.serialize(&mut data)
+				.unwrap();
+			let msg = msg::Channel::Request(msg::channel::Request {
+				recipient_channel,
+				ty,
+				data: &data[..l],
+				want_reply: false,
+			});
+			self.send_channel(&mut buf, &channel, msg).await?;
+			let msg = msg::Channel::Close(msg::channel::Close { recipient_channel });
+			self.send_channel(&mut buf, &channel, msg).await
+		}
+		.fuse();
+		let closed = channel.wait_for(|c| c.peer_closed.get()).fuse();
+		pin_mut!(finish, closed);
+		select! {
+			ret = finish => ret,
+			() = closed => Ok(()),
+		}
+	}
+
+	async fn forward<Io: AsyncRead + Unpin>(
+		&self,
+		io: Option<Io>,
+		ty: Option<u32>,
+		channel: &Channel<Handlers::Stdin>,
+	) -> Result<(), ReceiveError> {
+		let mut io = match io {
+			Some(io) => io,
+			None => return Ok(()),
+		};
+		let recipient_channel = channel.peer_channel;
+		let mut buf = [0; 512];
+		let mut data = [0; 256];
+		loop {
+			// Treat errors as the end of the output.
+			let l = io.read(&mut data).await.unwrap_or(0);
+			if l == 0 {
+				return Ok(());
+			}
+			let data = &data[..l];
+			let msg = match ty {
+				None => msg::Channel::Data(msg::channel::Data { recipient_channel, data }),
+				Some(ty) => msg::Channel::ExtendedData(msg::channel::ExtendedData {
+					recipient_channel,
+					ty,
+					data,
+				}),
+			};
+			self.send_channel(&mut buf, channel, msg).await?;
+		}
+	}
+
+	fn channel(&self, id: u32) -> Result<Rc<Channel<Handlers::Stdin>>, ReceiveError> {
+		self.channels
+			.borrow_mut()
+			.get_mut(id)
+			.map(|ch| ch.clone())
+			.ok_or(ReceiveError::UnknownChannel)
+	}
+
 	async fn receive(
 		&self,
 		buf: &mut [u8],
 		server: &Server<Handlers>,
-	) -> Result<Action<Handlers::Stdout, Handlers::Stderr>, ReceiveError> {
+	) -> Result<Action<Handlers::Stdin, Handlers::Stdout, Handlers::Stderr>, ReceiveError> {
 		let mut read = self.read.borrow_mut();
 		let (rd, enc) = &mut *read;
 		loop {
@@ -380,12 +446,15 @@ where
 						.map_err(ReceiveError::Out)?;
 				}
 				Message::Channel(msg::Channel::Open(o)) => {
-					let ch = self.channels.borrow_mut().insert(Channel {
+					let ch = self.channels.borrow_mut().insert(Rc::new(Channel {
 						peer_channel: o.sender_channel,
 						ty: ChannelType::Session,
-						spawned: false,
-						stdin: None,
-					});
+						spawned: Cell::new(false),
+						close_sent: Cell::new(false),
+						peer_closed: Cell::new(false),
+						wakers: Cell::new(Vec::new()),
+						stdin: RefCell::new(None),
+					}));
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
 						msg::channel::OpenConfirmation {
 							sender_channel: ch,
@@ -400,10 +469,7 @@ where
 						.map_err(ReceiveError::Out)?;
 				}
 				Message::Channel(msg::Channel::Request(r)) => {
-					let mut channels = self.channels.borrow_mut();
-					let ch = channels
-						.get_mut(r.recipient_channel)
-						.ok_or(ReceiveError::UnknownChannel)?;
+					let ch = self.channel(r.recipient_channel)?;
 					// TODO check if the channel is actually a session channel
 					let ty = match SessionRequest::parse(r.ty, r.data) {
 						Ok(SessionRequest::Shell) => Some(SpawnType::Shell),
@@ -412,7 +478,7 @@ where
 						_ => None,
 					};
 					let io = match ty {
-						Some(ty) if !ch.spawned => server
+						Some(ty) if !ch.spawned.get() => server
 							.handlers
 							.spawn(&mut *self.user.borrow_mut(), ty, &[])
 							.await
@@ -421,66 +487,56 @@ where
 					};
 					let (msg, stdout, stderr, wait) = match io {
 						Some(io) => {
-							ch.spawned = true;
-							ch.stdin = io.stdin;
+							ch.spawned.set(true);
+							*ch.stdin.borrow_mut() = io.stdin;
 							(
-								Message::Channel(msg::Channel::Success(msg::channel::Success {
+								msg::Channel::Success(msg::channel::Success {
 									recipient_channel: ch.peer_channel,
-								})),
+								}),
 								io.stdout,
 								io.stderr,
 								Some(io.wait),
 							)
 						}
 						None => (
-							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
+							msg::Channel::Failure(msg::channel::Failure {
 								recipient_channel: ch.peer_channel,
-							})),
+							}),
 							None,
 							None,
 							None,
 						),
 					};
-					let channel = ch.peer_channel;
-					drop(channels);
 					if r.want_reply {
-						self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
-							.await
-							.map_err(ReceiveError::Out)?;
+						self.send_channel(buf, &ch, msg).await?;
 					}
-					match (stdout, stderr) {
-						(None, None) => {}
-						(stdout, stderr) => {
-							return Ok(Action::NewIo {
-								stdout,
-								stderr,
-								wait: wait.unwrap(),
-								channel,
-							})
-						}
+					if let Some(wait) = wait {
+						return Ok(Action::NewIo { stdout, stderr, wait, channel: ch });
 					}
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
-					let mut channels = self.channels.borrow_mut();
-					let ch = channels
-						.get_mut(d.recipient_channel)
-						.ok_or(ReceiveError::UnknownChannel)?;
-					if let Some(stdin) = ch.stdin.as_mut() {
+					let ch = self.channel(d.recipient_channel)?;
+					let mut io = ch.stdin.borrow_mut();
+					if let Some(stdin) = io.as_mut() {
 						if stdin.write_all(d.data).await.is_err() {
-							ch.stdin = None;
+							*io = None;
 						}
 					}
 				}
 				Message::Channel(msg::Channel::ExtendedData(_)) => {}
 				Message::Channel(msg::Channel::Eof(e)) => {
-					self.channels
-						.borrow_mut()
-						.get_mut(e.recipient_channel)
-						.ok_or(ReceiveError::UnknownChannel)?
-						.stdin
-						.take();
+					self.channel(e.recipient_channel)?.stdin.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
+					let ch = self.channel(c.recipient_channel)?;
+					let msg = msg::Channel::Close(msg::channel::Close {
+						recipient_channel: ch.peer_channel,
+					});
+					self.send_channel(buf, &ch, msg).await?;
+					// Stop the session only now, as it might have been sending a message.
+					ch.peer_closed.set(true);
+					ch.wake();
+					ch.stdin.take();
 					self.channels.borrow_mut().remove(c.recipient_channel);
 				}
 				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
@@ -504,8 +560,9 @@ where
 	}
 }
 
-enum Action<Stdout, Stderr>
+enum Action<Stdin, Stdout, Stderr>
 where
+	Stdin: AsyncWrite + Unpin,
 	Stdout: AsyncRead + Unpin,
 	Stderr: AsyncRead + Unpin,
 {
@@ -514,7 +571,7 @@ where
 		stdout: Option<Stdout>,
 		stderr: Option<Stderr>,
 		wait: Pin<Box<dyn Future<Output = u32>>>,
-		channel: u32,
+		channel: Rc<Channel<Stdin>>,
 	},
 }
 
@@ -525,10 +582,42 @@ where
 	peer_channel: u32,
 	#[allow(dead_code)]
 	ty: ChannelType,
-	spawned: bool,
-	stdin: Option<Stdin>,
+	spawned: Cell<bool>,
+	/// Nothing may be sent on this channel anymore.
+	close_sent: Cell<bool>,
+	peer_closed: Cell<bool>,
+	wakers: Cell<Vec<Waker>>,
+	stdin: RefCell<Option<Stdin>>,
+}
+
+impl<Stdin> Channel<Stdin>
+where
+	Stdin: AsyncWrite + Unpin,
+{
+	/// Wait until the condition is true. [`Self::wake`] must be called when it may have changed.
+	async fn wait_for<F: Fn(&Self) -> bool>(&self, condition: F) {
+		poll_fn(|cx| {
+			if condition(self) {
+				return Poll::Ready(());
+			}
+			let mut wakers = self.wakers.take();
+			if !wakers.iter().any(|w| w.will_wake(cx.waker())) {
+				wakers.push(cx.waker().clone());
+			}
+			self.wakers.set(wakers);
+			Poll::Pending
+		})
+		.await
+	}
+
+	fn wake(&self) {
+		self.wakers.take().into_iter().for_each(Waker::wake);
+	}
 }
 
+/// `SSH_EXTENDED_DATA_STDERR`
+const STDERR: u32 = 1;
+
 pub struct IoSet<Stdin, Stdout, Stderr>
 where
 	Stdin: AsyncWrite + Unpin,
-- 
2.43.0


From 81049e37e07e4782976e81ee2335bcc4f0d6e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:45 +0000
Subject: [PATCH 21/36] fix: respect the window and the maximum packet size of
 the peer

RFC 4254 section 5.2.
---
 nora_ssh/src/server.rs | 50 ++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 1e2a718..690bbb5 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -401,16 +401,24 @@ where
 			if l == 0 {
 				return Ok(());
 			}
-			let data = &data[..l];
-			let msg = match ty {
-				None => msg::Channel::Data(msg::channel::Data { recipient_channel, data }),
-				Some(ty) => msg::Channel::ExtendedData(msg::channel::ExtendedData {
-					recipient_channel,
-					ty,
-					data,
-				}),
-			};
-			self.send_channel(&mut buf, channel, msg).await?;
+			let mut remaining = &data[..l];
+			while !remaining.is_empty() {
+				channel.wait_for(|c| c.max_send() > 0).await;
+				let l = remaining.len().min(channel.max_send());
+				let window = channel.send_window.get();
+				channel.send_window.set(window - u32::try_from(l).unwrap());
+				let (data, r) = remaining.split_at(l);
+				remaining = r;
+				let msg = match ty {
+					None => msg::Channel::Data(msg::channel::Data { recipient_channel, data }),
+					Some(ty) => msg::Channel::ExtendedData(msg::channel::ExtendedData {
+						recipient_channel,
+						ty,
+						data,
+					}),
+				};
+				self.send_channel(&mut buf, channel, msg).await?;
+			}
 		}
 	}
 
@@ -452,6 +460,8 @@ where
 						spawned: Cell::new(false),
 						close_sent: Cell::new(false),
 						peer_closed: Cell::new(false),
+						send_window: Cell::new(o.window_size),
+						max_packet_size: o.max_packet_size,
 						wakers: Cell::new(Vec::new()),
 						stdin: RefCell::new(None),
 					}));
@@ -539,7 +549,12 @@ where
 					ch.stdin.take();
 					self.channels.borrow_mut().remove(c.recipient_channel);
 				}
-				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
+				Message::Channel(msg::Channel::WindowAdjust(w)) => {
+					let ch = self.channel(w.recipient_channel)?;
+					let window = ch.send_window.get().saturating_add(w.add_bytes);
+					ch.send_window.set(window);
+					ch.wake();
+				}
 				Message::Disconnect(_) => return Ok(Action::Exit),
 				Message::Ignore(_) | Message::Unimplemented(_) | Message::Debug(_) => {}
 				// RFC 4252 section 5.1: to be silently ignored after authentication.
@@ -586,6 +601,10 @@ where
 	/// Nothing may be sent on this channel anymore.
 	close_sent: Cell<bool>,
 	peer_closed: Cell<bool>,
+	/// The amount of bytes the peer is still willing to receive.
+	send_window: Cell<u32>,
+	/// The maximum amount of bytes in a single message to the peer.
+	max_packet_size: u32,
 	wakers: Cell<Vec<Waker>>,
 	stdin: RefCell<Option<Stdin>>,
 }
@@ -610,6 +629,15 @@ where
 		.await
 	}
 
+	/// The amount of bytes that may be sent in a message right now.
+	fn max_send(&self) -> usize {
+		self.send_window
+			.get()
+			.min(self.max_packet_size)
+			.try_into()
+			.unwrap()
+	}
+
 	fn wake(&self) {
 		self.wakers.take().into_iter().for_each(Waker::wake);
 	}
-- 
2.43.0


From 15c4382608e7bd7ffc75c0d0900047eb90895860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:25 +0000
Subject: [PATCH 22/36] fix: queue channel data and adjust the window

The window was never adjusted so clients got stuck once they had sent as much
as it allows, and the promised packet size could exceed the receive buffer.
Data was also written to stdin before the next message was received, so a
process waiting for its output to be read blocked window adjustments and all
other channels.
---
 nora_ssh/src/server.rs | 216 ++++++++++++++++++++++++++---------------
 1 file changed, 139 insertions(+), 77 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 690bbb5..3bd6179 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -16,8 +16,10 @@ use elliptic_curve::{
 	Curve, Scalar,
 };
 use futures::{
-	future::poll_fn, io, join, pin_mut, select, stream::FuturesUnordered, try_join, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt,
-	FutureExt, StreamExt,
+	future::{pending, poll_fn},
+	io, join, pin_mut, select,
+	stream::FuturesUnordered,
+	try_join, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, FutureExt, StreamExt,
 };
 use generic_array::ArrayLength;
 use nora_ssh_core::{
@@ -157,15 +159,13 @@ where
 						}
 						_ => Err(()),
 					};
-					let msg = Message::UserAuth(
-						match exists {
-							Ok(()) => UserAuth::PublicKeyOk(PublicKeyOk { algorithm, blob }),
-							Err(()) => UserAuth::Failure(Failure {
-								alternative_methods: b"publickey,password".try_into().unwrap(),
-								partial_success: false,
-							}),
-						},
-					);
+					let msg = Message::UserAuth(match exists {
+						Ok(()) => UserAuth::PublicKeyOk(PublicKeyOk { algorithm, blob }),
+						Err(()) => UserAuth::Failure(Failure {
+							alternative_methods: b"publickey,password".try_into().unwrap(),
+							partial_success: false,
+						}),
+					});
 					wr_enc
 						.send(
 							&mut pkt_buf_mini,
@@ -189,14 +189,18 @@ where
 					.ok_or(())?;
 
 					match (parse_pair(key_blob), parse_pair(signature)) {
-						(Some((a, key)), Some((b, signature))) if algorithm == a && algorithm == b => {
+						(Some((a, key)), Some((b, signature)))
+							if algorithm == a && algorithm == b =>
+						{
 							Some(Auth::PublicKey { algorithm, signature, key, message })
 						}
 						_ => None,
 					}
 				}
 				Method::Password { password } => Some(Auth::Password(password)),
-				Method::PasswordRenew { .. } | Method::HostBased { .. } | Method::Other { .. } => None,
+				Method::PasswordRenew { .. } | Method::HostBased { .. } | Method::Other { .. } => {
+					None
+				}
 			};
 
 			let user = match auth {
@@ -262,7 +266,7 @@ where
 	read: RefCell<(Handlers::Read, host::In<Handlers::Crypt>)>,
 	write: LocalMutex<(Handlers::Write, host::Out<Handlers::Crypt>)>,
 	user: RefCell<Handlers::User>,
-	channels: RefCell<Arena<Rc<Channel<Handlers::Stdin>>>>,
+	channels: RefCell<Arena<Rc<Channel>>>,
 	rng: RefCell<Handlers::Rng>,
 }
 
@@ -287,7 +291,7 @@ where
 	async fn send_channel(
 		&self,
 		buf: &mut [u8],
-		channel: &Channel<Handlers::Stdin>,
+		channel: &Channel,
 		msg: msg::Channel<'_>,
 	) -> Result<(), ReceiveError> {
 		let mut l = self.write.lock().await;
@@ -328,8 +332,8 @@ where
 			select! {
 				(ret, buf) = received => match ret? {
 					Action::Exit => return Ok(()),
-					Action::NewIo { stdout, stderr, wait, channel } => {
-						sessions.push(self.session(stdout, stderr, wait, channel));
+					Action::NewIo { io, channel } => {
+						sessions.push(self.session(io, channel));
 						received = receive(buf);
 					}
 				},
@@ -338,14 +342,13 @@ where
 		}
 	}
 
-	/// Forward the output of a process until it has exited or the peer closes the channel.
+	/// Forward the in- and output of a process until it has exited or the peer closes the channel.
 	async fn session(
 		&self,
-		stdout: Option<Handlers::Stdout>,
-		stderr: Option<Handlers::Stderr>,
-		wait: Pin<Box<dyn Future<Output = u32>>>,
-		channel: Rc<Channel<Handlers::Stdin>>,
+		io: IoSet<Handlers::Stdin, Handlers::Stdout, Handlers::Stderr>,
+		channel: Rc<Channel>,
 	) -> Result<(), ReceiveError> {
+		let IoSet { stdin, stdout, stderr, wait } = io;
 		let recipient_channel = channel.peer_channel;
 		let mut buf = [0; 512];
 		let output = async {
@@ -374,19 +377,72 @@ where
 			self.send_channel(&mut buf, &channel, msg).await
 		}
 		.fuse();
+		let input = async {
+			self.feed(stdin, &channel).await?;
+			pending().await
+		}
+		.fuse();
 		let closed = channel.wait_for(|c| c.peer_closed.get()).fuse();
-		pin_mut!(finish, closed);
+		pin_mut!(finish, input, closed);
 		select! {
 			ret = finish => ret,
+			ret = input => ret,
 			() = closed => Ok(()),
 		}
 	}
 
+	/// Pass the received data to the process.
+	async fn feed(
+		&self,
+		mut stdin: Option<Handlers::Stdin>,
+		channel: &Channel,
+	) -> Result<(), ReceiveError> {
+		let mut buf = [0; 512];
+		loop {
+			channel
+				.wait_for(|c| c.input_eof.get() || !c.input.borrow().is_empty())
+				.await;
+			let data = channel.input.take();
+			if data.is_empty() {
+				return Ok(());
+			}
+			if let Some(io) = stdin.as_mut() {
+				if io.write_all(&data).await.is_err() {
+					stdin = None;
+				}
+			}
+			self.consume(&mut buf, channel, data.len()).await?;
+		}
+	}
+
+	/// Allow the peer to send more data once a good part of the window has been used.
+	async fn consume(
+		&self,
+		buf: &mut [u8],
+		channel: &Channel,
+		amount: usize,
+	) -> Result<(), ReceiveError> {
+		let consumed = channel.consumed.get() + u32::try_from(amount).unwrap();
+		if consumed < WINDOW_SIZE / 2 {
+			channel.consumed.set(consumed);
+			return Ok(());
+		}
+		channel.consumed.set(0);
+		channel
+			.receive_window
+			.set(channel.receive_window.get() + consumed);
+		let msg = msg::Channel::WindowAdjust(msg::channel::WindowAdjust {
+			recipient_channel: channel.peer_channel,
+			add_bytes: consumed,
+		});
+		self.send_channel(buf, channel, msg).await
+	}
+
 	async fn forward<Io: AsyncRead + Unpin>(
 		&self,
 		io: Option<Io>,
 		ty: Option<u32>,
-		channel: &Channel<Handlers::Stdin>,
+		channel: &Channel,
 	) -> Result<(), ReceiveError> {
 		let mut io = match io {
 			Some(io) => io,
@@ -422,7 +478,7 @@ where
 		}
 	}
 
-	fn channel(&self, id: u32) -> Result<Rc<Channel<Handlers::Stdin>>, ReceiveError> {
+	fn channel(&self, id: u32) -> Result<Rc<Channel>, ReceiveError> {
 		self.channels
 			.borrow_mut()
 			.get_mut(id)
@@ -441,14 +497,13 @@ where
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
 			match Message::parse(data).map_err(ReceiveError::Message)? {
 				Message::Channel(msg::Channel::Open(o)) if o.ty != b"session" => {
-					let msg = Message::Channel(msg::Channel::OpenFailure(
-						msg::channel::OpenFailure {
+					let msg =
+						Message::Channel(msg::Channel::OpenFailure(msg::channel::OpenFailure {
 							recipient_channel: o.sender_channel,
 							reason: msg::channel::OpenFailureReason::UnknownChannelType,
 							description: "",
 							language: b"",
-						},
-					));
+						}));
 					self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
 						.await
 						.map_err(ReceiveError::Out)?;
@@ -462,15 +517,18 @@ where
 						peer_closed: Cell::new(false),
 						send_window: Cell::new(o.window_size),
 						max_packet_size: o.max_packet_size,
+						receive_window: Cell::new(WINDOW_SIZE),
+						consumed: Cell::new(0),
+						input: RefCell::new(Vec::new()),
+						input_eof: Cell::new(false),
 						wakers: Cell::new(Vec::new()),
-						stdin: RefCell::new(None),
 					}));
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
 						msg::channel::OpenConfirmation {
 							sender_channel: ch,
 							recipient_channel: o.sender_channel,
-							window_size: o.window_size,
-							max_packet_size: o.max_packet_size,
+							window_size: WINDOW_SIZE,
+							max_packet_size: MAX_PACKET_SIZE,
 							data: &[],
 						},
 					));
@@ -495,47 +553,41 @@ where
 							.ok(),
 						_ => None,
 					};
-					let (msg, stdout, stderr, wait) = match io {
-						Some(io) => {
+					let msg = match io {
+						Some(_) => {
 							ch.spawned.set(true);
-							*ch.stdin.borrow_mut() = io.stdin;
-							(
-								msg::Channel::Success(msg::channel::Success {
-									recipient_channel: ch.peer_channel,
-								}),
-								io.stdout,
-								io.stderr,
-								Some(io.wait),
-							)
-						}
-						None => (
-							msg::Channel::Failure(msg::channel::Failure {
+							msg::Channel::Success(msg::channel::Success {
 								recipient_channel: ch.peer_channel,
-							}),
-							None,
-							None,
-							None,
-						),
+							})
+						}
+						None => msg::Channel::Failure(msg::channel::Failure {
+							recipient_channel: ch.peer_channel,
+						}),
 					};
 					if r.want_reply {
 						self.send_channel(buf, &ch, msg).await?;
 					}
-					if let Some(wait) = wait {
-						return Ok(Action::NewIo { stdout, stderr, wait, channel: ch });
+					if let Some(io) = io {
+						return Ok(Action::NewIo { io, channel: ch });
 					}
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
+					// Don't wait for the process, as it may be waiting for other messages.
 					let ch = self.channel(d.recipient_channel)?;
-					let mut io = ch.stdin.borrow_mut();
-					if let Some(stdin) = io.as_mut() {
-						if stdin.write_all(d.data).await.is_err() {
-							*io = None;
-						}
-					}
+					ch.take_receive_window(d.data)?;
+					ch.input.borrow_mut().extend_from_slice(d.data);
+					ch.wake();
+				}
+				Message::Channel(msg::Channel::ExtendedData(d)) => {
+					let ch = self.channel(d.recipient_channel)?;
+					ch.take_receive_window(d.data)?;
+					let len = d.data.len();
+					self.consume(buf, &ch, len).await?;
 				}
-				Message::Channel(msg::Channel::ExtendedData(_)) => {}
 				Message::Channel(msg::Channel::Eof(e)) => {
-					self.channel(e.recipient_channel)?.stdin.take();
+					let ch = self.channel(e.recipient_channel)?;
+					ch.input_eof.set(true);
+					ch.wake();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
 					let ch = self.channel(c.recipient_channel)?;
@@ -546,7 +598,6 @@ where
 					// Stop the session only now, as it might have been sending a message.
 					ch.peer_closed.set(true);
 					ch.wake();
-					ch.stdin.take();
 					self.channels.borrow_mut().remove(c.recipient_channel);
 				}
 				Message::Channel(msg::Channel::WindowAdjust(w)) => {
@@ -582,18 +633,10 @@ where
 	Stderr: AsyncRead + Unpin,
 {
 	Exit,
-	NewIo {
-		stdout: Option<Stdout>,
-		stderr: Option<Stderr>,
-		wait: Pin<Box<dyn Future<Output = u32>>>,
-		channel: Rc<Channel<Stdin>>,
-	},
+	NewIo { io: IoSet<Stdin, Stdout, Stderr>, channel: Rc<Channel> },
 }
 
-pub struct Channel<Stdin>
-where
-	Stdin: AsyncWrite + Unpin,
-{
+pub struct Channel {
 	peer_channel: u32,
 	#[allow(dead_code)]
 	ty: ChannelType,
@@ -605,14 +648,17 @@ where
 	send_window: Cell<u32>,
 	/// The maximum amount of bytes in a single message to the peer.
 	max_packet_size: u32,
+	/// The amount of bytes the peer may still send.
+	receive_window: Cell<u32>,
+	/// The amount of bytes passed on that the window has not been adjusted for yet.
+	consumed: Cell<u32>,
+	/// Data received that has not been passed to the process yet.
+	input: RefCell<Vec<u8>>,
+	input_eof: Cell<bool>,
 	wakers: Cell<Vec<Waker>>,
-	stdin: RefCell<Option<Stdin>>,
 }
 
-impl<Stdin> Channel<Stdin>
-where
-	Stdin: AsyncWrite + Unpin,
-{
+impl Channel {
 	/// Wait until the condition is true. [`Self::wake`] must be called when it may have changed.
 	async fn wait_for<F: Fn(&Self) -> bool>(&self, condition: F) {
 		poll_fn(|cx| {
@@ -629,6 +675,15 @@ where
 		.await
 	}
 
+	fn take_receive_window(&self, data: &[u8]) -> Result<(), ReceiveError> {
+		let window = u32::try_from(data.len())
+			.ok()
+			.and_then(|l| self.receive_window.get().checked_sub(l))
+			.ok_or(ReceiveError::WindowExceeded)?;
+		self.receive_window.set(window);
+		Ok(())
+	}
+
 	/// The amount of bytes that may be sent in a message right now.
 	fn max_send(&self) -> usize {
 		self.send_window
@@ -646,6 +701,12 @@ where
 /// `SSH_EXTENDED_DATA_STDERR`
 const STDERR: u32 = 1;
 
+/// The amount of channel data clients may send before it is passed on.
+const WINDOW_SIZE: u32 = 1 << 21;
+
+/// The maximum amount of data in a single message that fits in the receive buffer.
+const MAX_PACKET_SIZE: u32 = 1 << 15;
+
 pub struct IoSet<Stdin, Stdout, Stderr>
 where
 	Stdin: AsyncWrite + Unpin,
@@ -674,6 +735,7 @@ pub enum ReceiveError {
 	Io(io::Error),
 	Message(MessageParseError),
 	UnknownChannel,
+	WindowExceeded,
 	Unexpected,
 }
 
-- 
2.43.0


From 8973edc5ea3e3e5e2087d8058692116b9b2006b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:47 +0000
Subject: [PATCH 23/36] fix: scp: refuse file names that lead out of the target
 directory

The sender chose the name, so ../ or an absolute path allowed it to overwrite
any file.
---
 nora_scp/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index b8bf41e..e92a4d1 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -134,6 +134,9 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 		while let Some((ty, _mode, size, file)) = read_header(&stdin, &mut header)? {
 			match ty {
 				Type::File => {
+					if matches!(file, "" | "." | "..") || file.contains('/') {
+						Err(format!("invalid file name {:?}", file))?;
+					}
 					let f = File::create(file)?;
 					ping_ready()?;
 					transfer_file(f, size)?;
-- 
2.43.0


From d6a638fbd87e15318b96e7546572b58eea9455e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:47 +0000
Subject: [PATCH 24/36] fix: scp: accept file names with spaces

Everything after the first space was dropped.
---
 nora_scp/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index e92a4d1..2b71a31 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -90,7 +90,7 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 				stdin.borrow_mut().read_until(b'\n', header)?;
 				// TODO try to support non-UTF8 when possible.
 				let header = str::from_utf8(header)?;
-				let mut parts = header.split(' ');
+				let mut parts = header.splitn(3, ' ');
 				let mode = parts.next().ok_or("missing mode")?;
 				let size = parts.next().ok_or("missing size")?;
 				let mut file = parts.next().ok_or("missing file")?;
-- 
2.43.0


From 429b1e80f909df3b90ad607b3dcbc34c93c0306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:48 +0000
Subject: [PATCH 25/36] fix: scp: refuse truncated headers

A file with a truncated name was created and acknowledged.
---
 nora_scp/src/main.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 2b71a31..4bb9977 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -93,10 +93,8 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 				let mut parts = header.splitn(3, ' ');
 				let mode = parts.next().ok_or("missing mode")?;
 				let size = parts.next().ok_or("missing size")?;
-				let mut file = parts.next().ok_or("missing file")?;
-				if file.bytes().last() == Some(b'\n') {
-					file = &file[..file.len() - 1];
-				}
+				let file = parts.next().ok_or("missing file")?;
+				let file = file.strip_suffix('\n').ok_or("truncated header")?;
 				// TODO check for garbage
 				let size = size.parse::<usize>()?;
 				Ok(Some((Type::File, mode, size, file)))
-- 
2.43.0


From b1dde0ccf70e55a578fc851c404646715860e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:48 +0000
Subject: [PATCH 26/36] fix: scp: exit with a failure if the transfer failed

---
 nora_scp/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 4bb9977..59b545c 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -28,11 +28,14 @@ use std::{
 fn main() {
 	match start() {
 		Ok(()) => {}
-		Err(e) => eprintln!(
-			"{} failed: {}",
-			std::env::args().next().as_deref().unwrap_or("scp"),
-			e
-		),
+		Err(e) => {
+			eprintln!(
+				"{} failed: {}",
+				std::env::args().next().as_deref().unwrap_or("scp"),
+				e
+			);
+			std::process::exit(1)
+		}
 	}
 }
 
-- 
2.43.0


From 8401cbc0ad03d71de3ba74546285368fee76d947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:48 +0000
Subject: [PATCH 27/36] fix: scp: follow the protocol when sending files

The announced size was always 42, the terminating zero byte was missing and
acknowledgements were not awaited.
---
 nora_scp/src/main.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 59b545c..ed9cac9 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -166,23 +166,43 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 }
 
 fn send(from: &[PathBuf]) -> Result<(), Box<dyn Error>> {
+	let mut stdin = io::stdin().lock();
+	let mut out = io::stdout().lock();
+	let mut wait_ready = || -> Result<(), Box<dyn Error>> {
+		let mut ack = [0];
+		stdin.read_exact(&mut ack)?;
+		if ack[0] != b'\0' {
+			Err("expected '\\0'")?;
+		}
+		Ok(())
+	};
+
 	let mut buf = [0; 1 << 15];
+	wait_ready()?;
 	for path in from {
 		let mut f = File::open(path)?;
+		let mut size = f.metadata()?.len();
 		// TODO try to support non-UTF8 when possible.
 		let name = path
 			.file_name()
-			.unwrap()
+			.ok_or("path has no file name")?
 			.to_str()
 			.ok_or("failed to convert path to UTF-8")?;
-		println!("C{:04o} {} {}", 0o644, 42, name);
-		let mut out = io::stdout().lock();
-		loop {
-			match f.read(&mut buf)? {
-				0 => break,
-				n => out.write_all(&buf[..n])?,
-			}
+		if name.contains('\n') {
+			Err("file name contains a newline")?;
+		}
+		write!(out, "C{:04o} {} {}\n", 0o644, size, name)?;
+		out.flush()?;
+		wait_ready()?;
+		while size > 0 {
+			let l = size.min(buf.len() as u64) as usize;
+			f.read_exact(&mut buf[..l])?;
+			out.write_all(&buf[..l])?;
+			size -= l as u64;
 		}
+		out.write_all(b"\0")?;
+		out.flush()?;
+		wait_ready()?;
 	}
 	Ok(())
 }
-- 
2.43.0


From c0f6defeca59f723bd3fdd4cc5d49857511f5cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:49 +0000
Subject: [PATCH 28/36] fix: sshd: refuse passwords instead of panicking

---
 nora_sshd/src/main.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 3591409..3a4cfce 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -77,9 +77,7 @@ impl ServerHandlers for Handlers {
 	) -> Result<Self::User, ()> {
 		match auth {
 			Auth::None => Err(()),
-			Auth::Password(_pwd) => {
-				todo!()
-			}
+			Auth::Password(_pwd) => Err(()),
 			Auth::PublicKey { algorithm, key, signature, message } => {
 				if algorithm != b"ssh-ed25519" {
 					return Err(());
-- 
2.43.0


From 69d96eb41f4fd49d1b1aec0059587a41c2f964a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:50 +0000
Subject: [PATCH 29/36] fix: sshd: refuse user names that are not UTF-8 instead
 of panicking

---
 nora_sshd/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 3a4cfce..31b58ef 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -88,7 +88,8 @@ impl ServerHandlers for Handlers {
 					.map_err(|_| ())?;
 				key.verify(message, &signature.try_into().map_err(|_| ())?)
 					.map_err(|_| ())?;
-				Ok(User { _name: core::str::from_utf8(user).unwrap().into(), shell: None })
+				let name = core::str::from_utf8(user).map_err(|_| ())?.into();
+				Ok(User { _name: name, shell: None })
 			}
 		}
 	}
-- 
2.43.0


From 14ea03fe129453f2571f29b4bb58d4e91783e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:50 +0000
Subject: [PATCH 30/36] fix: sshd: refuse commands that cannot be started
 instead of panicking

---
 nora_sshd/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 31b58ef..ef6bcca 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -106,13 +106,13 @@ impl ServerHandlers for Handlers {
 		};
 		match ty {
 			SpawnType::Shell => {
-				let shell = std::env::var_os("SHELL").unwrap();
+				let shell = std::env::var_os("SHELL").ok_or(())?;
 				let mut shell = process::Command::new(shell)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
 					.stderr(process::Stdio::piped())
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
@@ -127,14 +127,14 @@ impl ServerHandlers for Handlers {
 					.split(|c| c.is_ascii_whitespace())
 					.filter(|s| !s.is_empty())
 					.map(std::ffi::OsStr::from_bytes);
-				let bin = args.next().unwrap();
+				let bin = args.next().ok_or(())?;
 				let mut shell = process::Command::new(bin)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
 					.stderr(process::Stdio::piped())
 					.args(args)
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
-- 
2.43.0


From 1c4553c8899b9519322685be51bb8a4e46f7307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:51 +0000
Subject: [PATCH 31/36] fix: sshd: do not report a killed process as successful

---
 nora_sshd/src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index ef6bcca..3dc491c 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -12,7 +12,7 @@ use nora_ssh::{
 	Identifier,
 };
 use rand::rngs::StdRng;
-use std::os::unix::ffi::OsStrExt;
+use std::os::unix::{ffi::OsStrExt, process::ExitStatusExt};
 
 #[async_std::main]
 async fn main() -> ! {
@@ -102,7 +102,12 @@ impl ServerHandlers for Handlers {
 	) -> Result<IoSet<Self::Stdin, Self::Stdout, Self::Stderr>, ()> {
 		let wait = |child: &mut process::Child| {
 			let wait = child.status();
-			async move { wait.await.unwrap().code().unwrap_or(0) as u32 }
+			async move {
+				let status = wait.await.unwrap();
+				// Like shells do for processes that have been killed.
+				let code = status.code().or(status.signal().map(|s| 128 + s));
+				code.unwrap_or(1) as u32
+			}
 		};
 		match ty {
 			SpawnType::Shell => {
-- 
2.43.0


From da74fceeb18aaa36612a040e3a33f49957d50f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:52 +0000
Subject: [PATCH 32/36] fix: sshd: do not panic if a connection cannot be
 accepted

---
 nora_sshd/src/main.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 3dc491c..d040977 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -2,7 +2,7 @@
 
 use async_std::{
 	net::{TcpListener, TcpStream},
-	process,
+	process, task,
 };
 use futures::io::{AsyncReadExt, ReadHalf, WriteHalf};
 use nora_ssh::{
@@ -12,7 +12,10 @@ use nora_ssh::{
 	Identifier,
 };
 use rand::rngs::StdRng;
-use std::os::unix::{ffi::OsStrExt, process::ExitStatusExt};
+use std::{
+	os::unix::{ffi::OsStrExt, process::ExitStatusExt},
+	time::Duration,
+};
 
 #[async_std::main]
 async fn main() -> ! {
@@ -52,7 +55,13 @@ impl ServerHandlers for Handlers {
 	type Rng = StdRng;
 
 	async fn accept(&self) -> (Self::Read, Self::Write) {
-		self.listener.accept().await.unwrap().0.split()
+		loop {
+			match self.listener.accept().await {
+				Ok((stream, _)) => return stream.split(),
+				// The client may be gone already or there may be too many open files.
+				Err(_) => task::sleep(Duration::from_millis(50)).await,
+			}
+		}
 	}
 
 	async fn public_key_exists<'a>(
-- 
2.43.0


From dfb2a36561f3e4b942e1bb0adaed00c0e0ad0b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:31 +0000
Subject: [PATCH 33/36] fix: keep at most one waker for each waiting future

will_wake() is not reliable, so the lists of wakers of a channel or lock kept growing (and being searched) for as long as nothing woke them, e.g. while a process writes a lot of output.
---
 nora_ssh/src/server.rs | 17 +++++++++--------
 nora_ssh/src/sync.rs   | 26 +++++++++++++++++---------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 3bd6179..8f5ea45 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -521,7 +521,7 @@ where
 						consumed: Cell::new(0),
 						input: RefCell::new(Vec::new()),
 						input_eof: Cell::new(false),
-						wakers: Cell::new(Vec::new()),
+						waker: Cell::new(None),
 					}));
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
 						msg::channel::OpenConfirmation {
@@ -655,21 +655,20 @@ pub struct Channel {
 	/// Data received that has not been passed to the process yet.
 	input: RefCell<Vec<u8>>,
 	input_eof: Cell<bool>,
-	wakers: Cell<Vec<Waker>>,
+	/// To wake the session of this channel.
+	waker: Cell<Option<Waker>>,
 }
 
 impl Channel {
 	/// Wait until the condition is true. [`Self::wake`] must be called when it may have changed.
+	///
+	/// This may only be used by the session of this channel.
 	async fn wait_for<F: Fn(&Self) -> bool>(&self, condition: F) {
 		poll_fn(|cx| {
 			if condition(self) {
 				return Poll::Ready(());
 			}
-			let mut wakers = self.wakers.take();
-			if !wakers.iter().any(|w| w.will_wake(cx.waker())) {
-				wakers.push(cx.waker().clone());
-			}
-			self.wakers.set(wakers);
+			self.waker.set(Some(cx.waker().clone()));
 			Poll::Pending
 		})
 		.await
@@ -694,7 +693,9 @@ impl Channel {
 	}
 
 	fn wake(&self) {
-		self.wakers.take().into_iter().for_each(Waker::wake);
+		if let Some(waker) = self.waker.take() {
+			waker.wake();
+		}
 	}
 }
 
diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index 91d2cfb..455e21f 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -8,33 +8,41 @@ use core::{
 
 pub struct LocalMutex<T> {
 	inner: RefCell<T>,
-	queue: Cell<Vec<Waker>>,
+	/// The futures that are waiting for the lock.
+	queue: Cell<Vec<(u64, Waker)>>,
+	next_id: Cell<u64>,
 }
 
 impl<T> LocalMutex<T> {
 	pub fn new(value: T) -> Self {
-		Self { inner: RefCell::new(value), queue: Cell::new(Vec::new()) }
+		Self {
+			inner: RefCell::new(value),
+			queue: Cell::new(Vec::new()),
+			next_id: Cell::new(0),
+		}
 	}
 
 	pub fn lock(&self) -> LocalMutexGuardFuture<'_, T> {
-		LocalMutexGuardFuture { inner: self }
+		let id = self.next_id.get();
+		self.next_id.set(id + 1);
+		LocalMutexGuardFuture { inner: self, id }
 	}
 
-	fn push_waker(&self, waker: &Waker) {
+	fn push_waker(&self, id: u64, waker: &Waker) {
 		let mut q = self.queue.take();
-		if !q.iter().any(|w| w.will_wake(waker)) {
-			q.push(waker.clone());
-		}
+		q.retain(|(i, _)| *i != id);
+		q.push((id, waker.clone()));
 		self.queue.set(q);
 	}
 
 	fn wake_all(&self) {
-		self.queue.take().into_iter().for_each(Waker::wake);
+		self.queue.take().into_iter().for_each(|(_, w)| w.wake());
 	}
 }
 
 pub struct LocalMutexGuardFuture<'a, T> {
 	inner: &'a LocalMutex<T>,
+	id: u64,
 }
 
 impl<'a, T> Future for LocalMutexGuardFuture<'a, T> {
@@ -44,7 +52,7 @@ impl<'a, T> Future for LocalMutexGuardFuture<'a, T> {
 		match self.inner.inner.try_borrow_mut() {
 			Ok(lock) => Poll::Ready(LocalMutexGuard { inner: self.inner, lock }),
 			Err(_) => {
-				self.inner.push_waker(cx.waker());
+				self.inner.push_waker(self.id, cx.waker());
 				Poll::Pending
 			}
 		}
-- 
2.43.0


From 2346219aa2e5a3f1f7ad2325b94f9ee481b6bcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:42 +0000
Subject: [PATCH 34/36] fix: let other clients have a turn while one sends
 without pause

A client whose transport is always ready, for example one that keeps sending lines
before its identification, ignored messages or whose process keeps producing output,
kept the server from ever serving or accepting anybody else.
---
 default_12886021134293742414_0_17676.profraw  | Bin 0 -> 255848 bytes
 default_12886021134293742414_0_17838.profraw  | Bin 0 -> 255848 bytes
 default_5703964727569511570_0_17838.profraw   | Bin 0 -> 243616 bytes
 default_6973024718447691066_0_17838.profraw   | Bin 0 -> 245112 bytes
 default_7918707482921890665_0_17676.profraw   | Bin 0 -> 398640 bytes
 default_7918707482921890665_0_17838.profraw   | Bin 0 -> 398640 bytes
 default_8682400841892545181_0_17676.profraw   | Bin 0 -> 418304 bytes
 default_8682400841892545181_0_17838.profraw   | Bin 0 -> 418304 bytes
 ...fault_14694219338466419108_0_16036.profraw | Bin 0 -> 486824 bytes
 ...fault_16819065619406078715_0_16036.profraw | Bin 0 -> 312152 bytes
 ...fault_17518657221149090802_0_16036.profraw | Bin 0 -> 475808 bytes
 nora_ssh/src/fair.rs                          |  67 ++++++++++++++++++
 nora_ssh/src/lib.rs                           |   1 +
 nora_ssh/src/server.rs                        |  10 +--
 14 files changed, 74 insertions(+), 4 deletions(-)
 create mode 100644 default_12886021134293742414_0_17676.profraw
 create mode 100644 default_12886021134293742414_0_17838.profraw
 create mode 100644 default_5703964727569511570_0_17838.profraw
 create mode 100644 default_6973024718447691066_0_17838.profraw
 create mode 100644 default_7918707482921890665_0_17676.profraw
 create mode 100644 default_7918707482921890665_0_17838.profraw
 create mode 100644 default_8682400841892545181_0_17676.profraw
 create mode 100644 default_8682400841892545181_0_17838.profraw
 create mode 100644 nora_ssh/default_14694219338466419108_0_16036.profraw
 create mode 100644 nora_ssh/default_16819065619406078715_0_16036.profraw
 create mode 100644 nora_ssh/default_17518657221149090802_0_16036.profraw
 create mode 100644 nora_ssh/src/fair.rs

diff --git a/default_12886021134293742414_0_17676.profraw b/default_12886021134293742414_0_17676.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..fcc038969c0a12eaff615b6d310d72491220dea5
GIT binary patch
literal 255848
zcmbT<c{tTu|2J?UB+8IkQHo8<T!zeqWKJ22gpG_LO~{lXLu8Ijv1P1Ol8hCl!H~>j
zhMg%<DAV&i_wQckzMgeozw27p>K~^%=XE~o{aI^$*Y~^k=BAf}yO+ns&FvKb^NauA
zU;F9){SW{CqR;mK{~q;s);0h0Z^oH!{_B@t!fwT)z|Bn$!kdOu0spN~{`-%1{rhW8
zjd8?;P@f>D)T_?Zme=a;rW$<ue}C0bmu4m!TKL$=*Yss;OjZc+|NWo+uV1!6f1~KQ
z!p+Z<{(e!mHdI2$DckVhbwdBzfBhEJ3I0Nxs-`<as54huh(Rtp($ta@(Shr6+xDbH
zFW>hHM`x>$`rn%;yHEX3Zs7m(zkP-4QGZX>cv|LeGH|jm9sd2Er_85bES|0%x14-u
zw~vVEP(g(<v|kF?h?$>Iyq*7SOVu7vSwsiUCs8>`UAW{%WOZiS$u5Q;>MJH_`M{2D
z^SWH@lP=?BAJrK9K^O5#Oh<ViUBvg|k%<SIb%N<-N|*gGosNv18nbR^Qi2MChun<E
zx@0k(%Fi!vUXR-*k@ESu1&Kwmf5jLtA0cu?LD;*ScZ^?pyO#VGB3EKM7m`+$52)EE
z@b<iR?{wwi^uu&MG_c)wv!G(CQU9TH)LSoI7Sl17Sn#KF2-alU<)RnYZufS@2rr-T
zf>r+0lNQ^CBm|qk{k&yeiRo;iI&kCH#RFp<FV95g8Zl7#VLCik-<fRedwjUPi{0mr
zvw6v4I@?IEwKHVW+JUoTh?kGVT@e$>MxNuqsl;^TqSud0EgaQ(HQar&A?o|0AEpyy
zLfSUIk1M~UxOIQ|fy{TZm=3W<=Nv=7LXvFrhBU$HAaTV2FQ08qLvyifTq9s#t;BR{
z8|Sy#rP~fO_}x-Z>E!?Ghv}FOw_LkqX{eIzwwGQ0xGjY&rZd>P*du+8xdb>X`gr-c
z8cp*hOpo;erxMd?qj9We6aTr)HY=^Aun{EUhv_t(p?>J`>b?+gWHFrzspDT9c&ulE
zv!aKWkDNhz>qmBv7r?2+bZphc)-F5D6U;4MQ?JNLO8a3t$`O|8zrHdCB`kZaK8}==
zl0|gjbIXAbs^0~^Ik$9G>~hGDPv@dQbf}^8#ugQVoO!-zB5=A-qU8)b6+a6M&x=mZ
z1E(C*p^8?H9pz&x22MDp)7&H$Tui)gJmPBbSu>)u$p+DZ&p)T@<o-zd=+J@l7(b>H
zytCDzp~pZ2oX3WB(Q=0CVIB>hJC(RyM&$bw*Wj+ag)B@b=>7tg6t7r3%R|p|?A>$+
zZ7`i{yRQp)K2DM-l6^9)I{iVFAJaLhx}W}*9(nV6T<d`h3%aG@6L|UDB7e!G^C+ML
zP8OykyQhGS{_$@S;Mia~V^z@yj{m*)4mkXnj#gtJ4a*na4&V&y;N|no;>qg{hc#K?
zWMMi{cLSAzd6j#CV}t3GUKVrD&B+V~4nL+-_2*B%BTL+)%5!b36{W%K!`gWHe2X~0
zaa)0VshP8ZHN*B~T^6Qu_Xlan@pd5#sK*A=QI}^B)X+{E1oiM^I(J+Rj*vQ<W!49*
zI4d6}Ne*k_<)dbGv~b0NM`SiJNuojOq;3|b^Q^OFdc9807C1JTj>Y5H6MMgM|I8EF
z{yOWekUc-9vwnqb;Re5r7;uJ<<K^S5dX%wFW%we<ISbQq(=EC_>=+;LPd<nad`^((
zjyYR)<Qx%<i-74&UiZ^K=UY0V=tXtQ@Jpu5ye3*cTcPvD__=VNL$s0vaDUN?=)l*(
zquIULN0LL8!)a;S6FeF2#34FxKD03kQq8(=EU8vYRLk<S0?ZH{xSkU+qUC3M1Wo{l
z6Vu@ty!@DQRahQ4-5O{)!}aiFHSGMh^N~7mQZOB*du{b{lj*g<F++6V=UPqy)qTC!
zGX6vrdTce)d#Oo4bl`qT)LXe;y|!2coOyM;eCVi#pEVXWrvs-P)5+y{{hLlFhX@=G
zOvit({npRBMT=ZN?l#NO8h;>;>5Mdvyc7_X3<LGdtD)sX1FchT4~u641EQ+@qt<b@
znQ@EVhz>jtO|y$uhAgbEfN`ZDI&j}BTMllXRkr^q%Sl~n==Lko2GN1*8BesBm3%%h
zIUfCvLH^`l5<j8?p0k6PEWfH4^z)SUf_=;n(ShrcIJlViiQ&`PaGp0uxM!no%VIjW
z;wHYbcW({RWSp7F{j=@ViYi*);d)47+i1KmOJ@M564SZc`X$!L%QJ&lN%m`DL}9KU
zrem!k<6o4=OAj1bOh@OVj@9&qtpdPVQNhcnLH5s;C_Z)JfAYa}Y(^ONR|RIq1IG{3
zu?}craPn|y0FErC<4-BI_pyKw1#niB@$ylgNwVqO`RAh?U&LhPn@i6sF&&$z3Vj>p
z&mq9^!*s6I)<)d>kl_RzSwshZzVSY#IIcu>_(|x4p!YwPHa3_L9e90R3w_J5Q+(Kh
zdMi!JleqUItxB8!`UUot|LrU6+!9}0dqfcw0G=DiVLG*(4{l8J${GU45Ywr)ivBBo
zxaKZ+{>+5wj6HfYd8Whu8+iWHs)&{k+^=QM{O?~zMJ$0s!gTaksH`l)?tBGKAf{7x
z&4m4He}LM^Y70$|fh(^Wq67EcTIbFrZ|%Do;BaC(=N@t_IZQpJ22S@ew4C93hUzTi
z2(pLwW^E5TEkl(zm4fNSW|wz3L<SXHo3dN5&r$L>Lv)y-1v9B#_2TuMw-cDpxb@_B
z|4e3B*B%BAYCUj1q9)&K)~2q|0*4cET(IL{U(g!P?@te$ZUwx4IVy~th%pFF1WpR3
z<6AoYsGu$)%Ep72IwkZfqZy)O4)yDhGW(o<RdC6uy4>pi(w73=i1QgfA9jf~ULy7u
zNVG3^o;GlM?V5$?KyTlm=-)wj6va05<jm#RW}lkzrW8a6?$?C@)uaRN%X`>Qd{~*y
zKAwoW-og7zKuoL`Zfy@|ZaK%)D0-tMjod`Utf!iTA-I#8<?f>U>%xY)w3h@#X9p<c
z-(O=ZU7FhRr?S5n5DjminTs++bl`kK{X?x-I)AzLjGU($qhbqXLUd@MdMtkLDl$^3
zqKOddus8I{?4dw(;Q4bYR`6JS;h~3CJ94O!ybT?i5!WevU$A@RRbG!bRk_HkI3}yX
zB1V41df<GX-8th@Yw($I?(-b!;Ldf|VZ?f1XXffX&g#;$7MH(VFdL0DKb3{)9OT+~
z_j~MNe2$OU-rt7z6KoJ22B=@$nL5Guj!MK04Bby79#wVmLv-Nh31*+E9+0(<jj=zP
zpnFeX@YF_h;B&(EzSXK~fr{10g2Eu;PsMNihz^`{nuc3bT|kd{%-L7W&ubSx4kPY|
z@bj_DJg@m!Or?&H-YoDWayx|8Av*AUp0d(1((t4|(|p^}GPqOVXE>q*k8A#RXx@d3
zg_9kL3#HXMMhn`Q&JXPi1wDLe!bHB3L$2S9!ssxa+3n?AblVf+wd0xnh0-tXYL-X4
z4#LkjT&S#hT*spt7)vg4pU8{kC`WYQe3X5MJ*+rStvu(TwBHeKSmlA}!0SSz%PfSA
z<t^uhQP=(C3s1(v5goYiBuTNyn$|ZcKR!=4?^aebG(>dZebvlh)m(Q+jjxeS!)9^+
z)L9io2VSRoCUp17KTh_oUMQG4-S*Rj3DMaP?He4wiR3>NOCw>ow5KB3Gc3u74%{!z
zk7MP%lrI!-#d=NfS{8_tFr6E{lbY^1jMhy@$d<2nq~#GYosh#9#y=$TRR(sMa{pTS
z#!0|*h>ucLR;>58$STGzNb8opAj_ex3wZxglJXShROGm{>uCTb&sc*@Gol0M%s)Rz
zSADzlg>QdMvEj><^l(h)w33*xm(+l&fV}38mIShfHlhR1XJ?W3)N_3gwrR*7^_5J@
zpqE8-;Pq8R!!;7xxpY{lC0%7x`X?0yq662Xv&}5u#Cb(KJY7E_DOut7yewM3;CfzY
zXjX`N2N(THbGQ@DOy^UH=)nCl*>Ohs-0^Lp)vY@-!^d~__#ry*xIPO@(=;6K=&z+c
zw3~kDU?36Ef%lEWcDx7J8U3g^6nf9~yrol;MRefvyq@0=DVa-RzixP$-=_;_{w0p+
z!1*-ZAp|(Y*S-2=?<{hq+FEx0C|bW@XUEWz^hveK?7!b_bDs$f1(qW^+|YjLX?5Ol
zz&1sO?pD3t*5i@`sQJL>ADIO!dYS>c7x&-G=xK&Ny~~7{4}AR+6<N^woqT^YA+?D&
z!SV4i0-^)w6JecpJR;Z6)_jITt*+A3nv9swHYlIz*?s4pZ*>u_WKExYsUvs;)q(3V
zE<W6-GqHnv#iZn}$5tvO5@J2D^ML8bw<8Jj#Ugja`FsA<_z^K3xhTd_*=wSoIttH!
z`(A(i83ECO_xUc?l&VPGyj+gccbBNEMcU{P9e7;gm3Q@MwPKp<yjpTHgS<?ekKnC~
zPs8(vbaI+S+R|P(Th@iegd;k8p}wDGiM7<uTX2m1ww`@=*SkS&%yF?v`WL_H8Cd`8
zT*B0n$RUH9&wN=7@!_w^#9tw&)^}<0_v7ZHVYd0#P1ot9^xVNKJg0)SQ1hXO@|nvh
z8JN})VI(kJ*=cd?>PQ@7&hT|7JFnAA;lii4j|{WYHDB~`n;|;zJk*LKvz8s;E3>OB
zbW#?liI+um2++9N<Ub!2Eor6ct0y$Ps0y7F$L#wjSv58BHio^V@ozrIuLfGoBh~}w
zbCAI<#?(8x)F)&_a!s;_rV`V6<MBOf`nOZJCmUtyA+O(bftXJE*g>fWPy9E*b3biF
z2VU=YEcjaJvt(z0Lx<_?HoB}Qcy|9;;55tN?Hg;&sT=nmiTn6p_8*AW+%^-A>4Y~L
z)83#vqTOw!A?(lI*RPG~1P7Xa)r?yRs4<CeR9{*erNeZ5=XX$1)d=q43DkZ6TF>Q4
zvou~l93sir8FtklG)&id_UUd+Q8=Ol&*ze0k%M+$Yxt!E-|$K%MgB2Fbl~~J!Pe4y
zd-!<!N`djXs>jYFOqfmx!LHx1(q@4{sBB#J?97!`DYSgxaXs6V_hDtZH=*-*y>OS~
zPW2Q-2OigI3RkzrF4O3<TYJ5aty#*LVLIV?O~=0pM;WxS9yq^sz+s6K(@A+?;3Q%E
zxO!tO*Yw<=+Dx}3T0Zc&4r<CJwEAwmnX$=!$LnAEECtbl_j%LYSer1NI+sY+&FRX4
zC&hk<4qT7h*q2pFim=>{JV!rIfg4(~hz@*zp=SC$cOp+%uOiGYLM8sC6dj@i*R#}9
zA$V4C@AuA&Nh_1I%;C)vXgS06OtK{#-@2-jxqM}G$zXSuSPG&8*K>m*ZF00S?qrXB
z+a}AJYmFJA1E1$NST5OY7H{P@5+UsMd?(EAf#|^X*vaYWa*fWnamCOpSLgV2iz7Pl
zeM*TL`$&7(WMI01rPgF$&M+OK1J`r0W5oKx66@ejt<$`76WOB8;%NPXoj3OLrS#Mz
zXG+ejURDbE$q<g|tgUV6>Q#r_*yeMiV#qq!T^rGX_px#B+;#exEYJHwWmo*uKks0|
zbZFC;KiqxNTut%ml5_TwesQ-LUOp%5EiRb{AAdm+`RFX2gIQb(rZZ5l^N5m{DYBuL
ztBj6%<d7MrbN}aNLdUdBdCu#j!2tz>rJRTkob%1-ODm!Z7e0Q~_I+>NKl*$4FkU|V
z_0jfWvo4;ER=1RWww(Tzh3VWHJHkdEP5f*6HX~4QBJ8^jq66>G&EjKn)$Qk<<Q5M!
zXI1mRRzY;&bs^xdmt$(PeB7$=)zcq3e>o`-9r(G;`S8uo9xi%%+0>{9D?d8uR}SIj
zEZgbDV}I{ZX7rr=Ww{@BKU5+*@aqM;V=Jbt)!mHTR_#<C<*06CAv$nA(T@uV7Gr_(
zDT~vtK2568Hi!=VoXtS&n4Ful=A`~<v3OH6CkaDD2d+oGQ2Mr}*Vhz=SG$>sbCN7f
zhz@*TnWa>o-SKSu@;JvU=bFfNElxxSt|v%XCf=WAm?$*y^q7x<S5LPnTHoP(W~bug
zSB}}Ta*8?q)c4Uj*No`E^_Ym<+!n>bEWB{l@%G!*)U)A;4m_V7+Pm1VY!z1)Yf*N;
zZlzuoi0HueY@2?&ApiBdM!BDQ7rXy_wF;(_GkJk~x}j=P*wC`%XPGr01*X&4{WRa7
zezJ9+dN;L?L2F^%L9~9s<1+8IeXQ&hY^D}<M}xXw$uJPp(a*cnS#`+&wR?i3L$qwj
zO%+V%OUI+e<W{MV$Df_jHZ_0JOM&UAasOm_e8M-1FJh0l-pZ@uIuW#d;Pc_bQr=HK
ztjrc6Mr^i`uNOGt5FI#YpDVmxMV?QqsO(~`*ajr14G|r9KXl}j&}|G@Nwd}QU>rWC
zF(8ZRz}M5t1cobPI)6<++{=>)kxy2oKy={qA)j&klmU|>Wu<al=OOc|>26`PoZ)=9
zzv_iP4r{l0-V`J8pzcI)3ZetA_ftxD!ZSwc8Vj45ozA9F)W;z@a6Pp<<c6qhj>ieM
zeLqO$bWYF^(ShgB^Qw(UqdB+39^55Se|f!|jUUm0`=xsN;_gJl!jGMi!b{f<|Jp|;
z;N`6FteU%2S1K-X?hVc04=+9vq63f1SMcGl*gY4h8CM(z^pEhf_#rxQ&enyY#^0th
zi(a>1&HwWGBA+ax1NVKkhBr^Z$v|&(ZrR$|D`ia_(Shq3j^(1;*y9}#d`&d+Re=q0
zUI;H|d(X|+>vzue{MItqGG8HDP>$%p=R^0=jhQ2S3~j5&uF*2go*j-ubpC5x87rSw
zicgiWjjbPl7Uy!n5Yd76AJ4q@<|%<34Y8G|D^KH{m1GeexE{-`wPD)MHOk;~nk#~M
zIXf8Tih7k1iWLu&vbTIIm##!~;G9kJ)w4MFyU)4^-`0BAs>Ymx=)mLplb9%R+mx*n
zIA)m6Y`E)-BHFY=pWfPpU$ZGH=EQWaTfHY=5j<B4obCg7IkR1ly`CV&Z4==AEOq%6
z)9w^ZXKnO@+=1WR)4(yqbawNMNcvVpU(yvA)yysZ@thOW$+hsF`miZl37qczc==F@
zG`emtE(--t3Z^43bcis~JzNMJGfZcqvS8>-_X{`RaAG>z#kV9CpD?)tr&|Cop8&&+
zD5)5qJm92YI=;VuIhFrux&s_DOlRiQTD{WR%6{N*Vmj6-r96M-m)--Xdmmmtivy1$
z9x&Fs04D|0*~nVk^VKFX95`l}&crX%;_cC6+knG~>CkYFr=FRYRRB)+Uc7vMBv%LB
z_397;P70=@7%4Ga_me{hIA)m6PUSQE|LVuc0*4dR;ngAB81Y&?2%K(yynMzlblr~+
z*u?>y6ig>ls&??~@u4x`m|;4V#<hp?RX)%IhZED`n-u4h>c0P<{f7@PpI#}V{LGuA
z%b=bVOh>(By0d^UFCRE&m`)X0)0I$UBmo>wOef$`#U)MYh+g1y@7es<FX(0Z|N1R_
zZein}*zUjgTP|=?FddbBL4{WZq@sXhhUvU1)Ax8B`nDQ4oS4qhO!pailjEO&)4dxn
zAB(UKq8)YHBydtN9d7pXlALYP9>6ifbQBwemcIprc>#wL(~%B&5WFH(VF{dWUc7wl
z7Dm}`-VPH7P70<oX0B_s8j_I=95YNu=<$_<i{7WN0*4dRk*MfXIUBQ87dYKKc=@nW
zexl*Hlb6qIaolq`b<4#ROlMQFq}?f4<r#3yFda_&rPtMsl6Lwzzioa~%-rI{bZm1d
zQ}<cd(F3QO8!w-r-AS*Ui+zuQ@As90>AWY5D5l3Gp8$>-rc<mCXnCFP%ro$P!#FV=
zjawbhj#A&F1Wq>>UOwljzJ;Y)Zuvr>PAqDz60u4_bl~Sm%Zn#Ya`^XIB*o|P9=1~0
zZiDHJt-qvBb=vdn?&xFlI}#N;2#5}R-Fb0;SIJ;R$BC^uSy?5_f5>D`w0z+EcM)~s
zfrb9J4>tBp%Xgl;_p2Gvf$Py~4_e(entk+`By~W|DYw9IOy`u6&_=V%E>6%dZA1s|
zSM^d>!5$VB4$v<qOegkh>BPgd?~|Zk-5h8+!}*xD9i{a>n&Jp@PQi2v_KrS3d(X%i
z<ZOoN?7HYBmSTFI4dl#;=)gJ4B@G^KxY{=kavo+!%LjG}wd;H<ZkE0RIg=0_IOkn=
zIBOXna0Y^$iI|Spwav)UVwFUYGXc}#_+wI)SoC56<V<G6%ZHnTZT7y<q87-x9Md^v
zl()yW%r*k#?1$*UId9z|ZBn@92?^vZi|JTQ2#g**)FujYUfG3~4_wbe>i5y#CJ$Rc
z&XtG`JP-dmNj`KCcBlY32Vy$C@8&uZ4L+-aoV5`hcw8q=Z16rU@M;A)(_uRD^~_{C
zK0X(ab2BSm&Y$A!<AY9yC4!v85gj<^Zy7})Uz%y}fSe66oj2D)g08R4S%aK85gj<^
ziNZVo_q0L!1g@vuENJ<_*VD^(KQwQAm#qi=szh|)dL9=Ro%vGvV+!=k57SxOpy<6X
zYdj75C5!05{h~kMM+le6TLS%}z;yEbhd#y8zu^G=YGy{u8P4aqVEbpWj5IyauW&>M
z?$<@;K6{ha6TP5cL_`O!=W~BUjKjK(BIp+Z(_#3mc~(^2ECuw7%!HN?+^@b*8mf^&
zCq99Gm18=oo=Zbl`N|qWzx)s#IG>hv{oQKLtLh+USxo28^+Fw$yP?#xqM_Q=ZmFRw
zJMr>)chch>B~5$)=vN)01CL8HNy%a*@_i%dS0JJT_lx`1w}FY<?sK4D+L%tu<I$d^
zXE%dDznBmmcwA=7&BXC+k9^Rt)*Wa$!;ZQB6W7jj+uA_RahT3t#-EQS&%{!IoDC5j
zIOkpsfrtL3&!2;wIWZktJDL~TO`g0o2Cq*$)riLrGos}K*R!36a$kXwi5}<|3DJRb
z<{N*?IIpnu8|;TfL<imv@Ac=A!VC{PxjkoCEY037s*UKt<I>;obym|F|L5Gogy_KI
zQt`<4wodo_1?EpH16t0o!#;W6X!&>J`+VD16t1PuJmL@?cw7g47bu=Q7%%|y&<xWN
z6d84U`Q)oVn1}qBPW5fk&(3Za2f;ifZ%4}q9+!oX^_h!`yLN+lSdQqxIhR!k#WX!$
zTLJrq2c|=tF*UAME^7eZ4<L@{z~f@NI&XM5`3@hLKP&WT`M~4i8*1LgNI!54%%4g`
z2d-x@FDu(LL2jM2pYjzs$l!4xq6616lod~Yr7Ctnd_!8Keq7+F3Z}EqzSK-fXssN~
zX9`3I9+$c7hz9rJh4)}SH*Z7B8Fm(`rB}Pc<Zgj^7>DS<`CPk{z}{dMF9`NSLqrGO
z57{<8jWcVSUk3A89MOU6(N#7WDf5rr59Z-K9a=uH;~OM#_g&UhHRBD|>7(~-_LpNi
z(LxQsBfr!pfxdenI&i=ADNUB;mgrYN-(@i!waZiz-aI*pU>~EvbgJcAGcCT~Z2|MA
znHDc+-HbHhxybJs;5rzN=)m~|@(oTUeJjuf^T!a;f&0!c^l(Ha@3<WJ`BqGrj!Tc_
z{<_}s+xh2n%{pmxm|AJ@@}WIWH2(IoO&*-X;}9J<pU-Ju$;>ymYJqiOhUmcg9PBA}
zws>`<SdV>qRPYL&94Dd!zdzGSHEDe0tC|tm=gC{q@`1;7%2h;FE}-=-*yqa;9e7-U
zLyC)GGZcTpKJS6)Ffyh36NXAuhTV1Qq>K*!7RPn=Imdo*D*Oocjd^Okd@S$gZ1q<-
z^Be3Nm6#4oGu4qT@^;c-y$2#XaL%n7?OIAt#GAl6Rl#(uudAtj5IboB<}(GR6Ht=z
z_Ndz<aWD_-sPJ-rW0ytS@H}NV=vO$VbEEKfQ}$*-GU%5frc+YJ#^#e`I|2H|iRi%n
zGGER*OPJ$&2>R7ciIxxSJV-BSeVKhz3iK-l(;2<|M)W3)WIM>&4AFu2jr8h^Kc=Qj
zV?fUQm`>Py>t9Pv@<EU@c?(`XQ%|hpwj5o*4{|19I>q)usSFXB|LpTbOo#T-tG)5v
z7lgpNARsz$&L_#@Mg|(SCqcjFDbVtPo!>X_m#63tI)HvvVmc<`Wp-*(2ls&UPavjK
zRG)dkEPCQP=({$e1FwrKXWthZ=DZmP=N~#m2hK-9JbU`BPp=7>KdqY^{|frQ-dF|w
z0bEa4W5X>oAtDK!f8sD5`5q05V_Uu*ZTNENNbbx2C__x=Ne9I~b}h|8ux~J7I{A)b
zcZ~-*YruSN-9XC+&bcz~nol2<M<kffDVUB2{~^KTTXURXKHFeA5=R8jwm#oe1Lh$C
z(SiHEv)bvQyn5w7&ymRMX!*cSoUPe(u6kD{=obmo;S)7`Ry@{P4EjYxbl`sd+1++(
zK8|$^^h+GmA^qB@n+@O34*IpShL#Up&sSq}fv|W+UC^&OL<i3K!^y2P{#E0JV7&)o
zI+b;g<Q}CpFoS-nU^?FJ(gjZ20yRLtC=eYupOPf`FNAFV#NhZi;~jO|a++81a<0B#
z@bvlIUxx0_U&U{8ZJmw7bk69UE7RhnlO%4=9Q*0+d)W-rF(Xni?WWO+0`>4?I{g%d
zq7h%cB0xRlzj*oBmru*nXfZwm^^{{eTQ4|EB|O}B7}Vp3=|~^*sUgVnImH$_7*hy2
zFRCCq@VapAdA)J(<N7|}P+&U88YRBwOEyyir|u70&Tu`{FJEdgcLY2KP9Ua3uQc^d
zu2F#oI4YQqRka^0^Va1K;80*X&XVip-rB)kz^Plo%SXC?VvoB079wy0F`ddIsR18_
zSr>q#g6UkEWN3B%72g6J3QVWC(D8)}i|`_F>Xz~HQDrX^XcJeU0!|>N<Gxa9pnCH=
zBXCqOoo_TOVS|6Z=>UfU(>eAtpOu#Sr3P^7mhkd<G|%Dnepy)&IDwc>0kzkaHU)Nx
zJSwO4*<g=#6-<XR*U{BkA-d5?&Ub_9pr8!}rqd;T|MFuIg-qbo{l?3u)UG|}W#Z2A
zCn^{Dk6iQ73B+{1i~m-$&<^kgjtZtj$=di^_IRZT_`D|trV~~#aQST=#WCR2{ld$K
zd8KvW_?TrL_`GKzrt@s~6KnID-WlMiU^<o=yDO6Es3|Ug4B5`TxZ@rLrlZHObh7u>
zPZDtI7V+}=<gnsSTW#SKOQTStoabpBi0Hu2dw-t%EE2mm{MbcC&r*A5e4`<v1D_A8
z%7T_SW-ViY!-?sLsdJXM{uR~*&hP?SK5#w04f2ZVhqp2ShlJ^v$7DDU|NVL!I3AeJ
z%X3=PuPtncfFq0P@Um2CPn`;H2Mz_M^D}9}yF~7s2XLBy;^kbt-L^0=XT=9NahT5J
z7j|-Rc?Ugk%rG4Sv5(JUw)qWk_%WTvxG8njXX(noA<yIGGrbmalb2W{51evLM=^E#
z#@9Q#Z-L{7>B#NnJ21-WvI96On9dvVUH8J{9;E??4%5jD9QU?-^-cgdtv~Q`ZX9er
zSeW%=6gVlE&ZUTii+SgV?t#y3*&sUb{RQ70H8RmK+6g%Pn2!H;9{Y&l6aRd!c6bgg
zAGjWqCk9cj$8KqYda^K`n`suxjXU2-0>=i^k+SQu+~mGN1sr}%C-mBx1BpwWdcYZ;
z#mlE~dBsz3`;l+J$-;D;cW0XOoNhb=92-oBPFtV2xaIdh-=~5f(_v%2^N0VuX*#H9
zcm^+@Pd?MW%}Q<Az{$dNSj3zziWvWS2pk(s=k>(N*uni-`+&ob>3BTf)>gpTy$GD)
zX}o;AyI(N%>~b>zP8Oy!yNAMkjO;H892-oBecVZ{M&-;u`xrl_voOnEx@;q82I?7}
z!pldyzTgUV$kTs5$C`!djA^7bxdrtygU^lHU^<fhxvBeQlk2ZphyPjDJoJhm)44i!
zSwpq`YR`zP!Dr2g&Zgn-c=;#|TFJWIa^wY07N*k>-IT;)I&M#~n5pE@ah28v)8S(F
z7H1JqzXCoF%a7?O`+DSyTxK~1oMAFvJ~4q$yXCvQtik7DvoM{(W+MCNo66<DvB7jA
zKe!!p?o!?+^8JZxa97>}Kc;j4;>@k`Y~9Pi8J@(;NB>YqrHo7MZ<dFi=h(aH4rXCG
zd?lyWa@G6jfn$T|=*YzD>=kS6FOq#StUCQcl^@foper3_%%nX8oZ$()d<G8lJo{tr
zv%%FHGj}M{<x>`>Q`NC?&Z;qw3>+Iwr^qRF-J4Zc%WLbIo^laSFMdP^zRzV1ydeF=
zM|LKhmZm+yli?0|94#N%A*OFC6rXrT3!HLHr}{iqzTQJhN8tEjI!qH(*C)E<-GQTm
z>6|ip`Y>H%PbzTeFddny>6jY|CRc#dI)<0C;`Of;J5uh)04D|0@fy3Z{QEFhA#iLk
zozT9P!rhb=3cw*?IwNb2r(Sothy!Q-8(uz_w*{sr?-Bk3oJvgRz;w0SBdr1*-~?hi
z^pkIRyOWstfuoJ-%t<`peSGyEGjNzNop-yBk+)QxiU&^jC|=Gft#2d~>RBy-lZEMA
z<EhGcrT&QxI7Cb*sr|%D(=W@Wz!ArE_5?jW6fD|A0i2Z)ynKQpi+_+09$5fR9j5a*
z`Ds%_>k&TSgkw6xr9b-YOdRrnV~FYe&J;T;nG*cZeCEV-WJzltjoiG`pq}Ajyqp~l
za*-zZt~3LOgz4O(3ZQRQ;oJrs4@_s`<*#UwZF3~x$YMHg(l78|R`Q_(4h5zYEi+>D
zqci%%CE*c+dDjK%<{`A4;phBYg!wL}(<!|MP70>;cg#fa3_0*3aEO@B&$^H<>Xut?
zfg_9QjD*U5W7>3S1`ZvjlN_&bves1WK5)7R@pAV4kbXeHm|O}R5~h>L{Nl?8_tbvi
z_+dH;>MPyUL8gkp(Z+P#m-8NL(mZ1W4kxB#YWcgOnAVpLIOGAmoXe`GS9{bpVu4eM
z>9Fq>*T~rK8V#IqOo#2krSu86566IGhUt_fm52X~Jogbe1YBor_Tp)#iUHuP^yB4R
zHz+N<n()dEIL(-j*BalxyYsf6fs=yiFmcMAvdG<T1{@-$bGoE!%A{Sr4LGuxj`vso
z)1&csB!EMQ>6{ykHHzW0`ez<?_u=*H`1Ox$vQK+uK|Lf)r<gfPXRF|jN5JvJbZidG
z*pIpQO#nw5)3M*xpFmiCT>u<TOlQ0B6}6-ru4jNl?#0V_wQ%VKui0|2@x7*Da}qaI
zC87i0cT15BXQJE*5`wGgl1xt}g#t01qC%GJU1yIr`d*}XRu%TFN*mK@9o7%i?Q`Oy
zwVLO>w3n8J3DJRHZyNfkWGYKn@J7(lMJF)BdZD!kEoay%Vw6fgdrP+F;sZhP(@L7^
zahOiTle_OHj4tGo&Mg~TrQLEi#B@q-3|@YITWqG9_1et`_pf_1Av*BqY8MPD+PWAR
ze|=$({^*!46fxh8mJjSS9gf?<ysGlJ@ul)Tb*<U&t%weMK0FqwN-%bD_$6vwBYPzG
z@r^7*2cFNJTNfPEbJWxdp1jyTl+B(?M0DW32WC^6Qb-<-HyoN1I`M%;i-75@8&>a7
z+E}zHxW)9m!O`+MxeG04_~#eIA5lp$KWVn~+|@(nnN=KDE20DU>;4hV4`aW^7KfuV
zifMSY_{$L;I3E{prOqd(R>&83$_|Oe@a^@$bX2d*e%DVDIYrvMB*(9+d0HINfq$OM
z`}zIri&;fRC$ipVsJ*0kLWk(U^Jmd}c<bdC>5uZ9cc&eee{!kyD_Xzc`P^-mU(|J^
zysI}ePh=?~#ytzup?rTdn4`1$nCTtTVteQp6%RxQ9#?^ZLY*WBXU4!yV|lfGE+evt
z4m^Ksh+F6k%M3asHm&wAor)dhM0DVKZq+J=YhKOqdKTVRADZ$fceoQRXLugw_n0O>
zUXJUPDb7-l<_PQ0!gOYfojOx{DaL6Gh0pz1bUbZ?=}57?9%HfVDy7Z0u(AwUwB$#0
z;Po!#97eqy=2`=;gLH@voX?T1hc(~-Jx~I!gUw&?a{gZD(W7o9r3J2o;h2ur#F<@f
z=ZJ3LI;f55m|jjY;k-KT53YlBn9ly|#G(q-^u!{?(A)w^zm4V&ynIr=W*aAz?a7)N
z{W15JlWuo7q64ps47b43>B>HvkH4iK&`qxRYl!I#Jo_E}pi{td@9A*EzrNEnoQMwm
zbNb##i!)`2wQ3r^-D4k3KBUEu=&(bdClr)p>Ah4De~Wz2EdFr*op-4D!2A5b*4EGB
z^F1;fn=kuQ6GG-~5bN0v)pN{mm^sdPFQHVO{NpJz|AGgi1OMDW`tM_{2IXZF+nJ8k
z8oyI!K&=PvJDu7MdhKMc{frfV!*;(JVkIEf1MkoKik%f`wHQ+yA6}_{8R2G2hv>ld
z_|d1FySVGuwsw!=dMW<lhpp{s>w+1|`PE*1Z*Eg3#xRzQ-l&^G?M#UEz}Hh>m9BW-
zuXSHO`=y_KyS`g^7_lCBT$W1bh#z>^LM<FvX88Ql_mL2tozS?ZIXX`GW$mz(Q;-xk
zaC0#0Ms(o)S@E^br+$+uzA_Kjx4&LmJWoM%;JybQU|hVvMDf7t-Oe)?Bh1?T5FL0v
zhrHHru#-P>QuOfQr_?rK#zaI1UZ>+-XYB89rVWG!$H~1h&ofX#bl~ftT4l^-jl%fZ
zp*HoK3jxzI1Wd<;VXtIbiolO_{n^D+2FVFbhz>jt?`V-9Z?9Uh%N+8FGB-DF8E!*c
z7dxQ&V?SJ7_?_kW;hv?N>g)P#l5~jmz&Y!6@S2+M7=OKI@lINv=g@Z4df<7OKA$R)
zEE*cuoYuOPE<^uv7UH<z^%Zi_cHC9Yxo>8hxw{8@cNr1WVNR}k)>FDm(qojCr`__0
zv^b&zkL#RjK1+krms>r}q8<~<w$AgdX#Ij6nf^_3+XJ6oB|~<-BzZ^qazqF2mmBZp
zC*~C8eR>1W^(DSdnua4f@XrlwX`wW??<!<9<Fb&E;O6@ni0HuU-6mzY$g$$0r<m*0
zBSO(VBOZtjJgygyb?bGF^U{AP-_w#9rF^T6=)mjCjzRuVah4OE&bRbG^>XbBoQMuQ
z58D#^b?nk;zF$eI_-4&m?J@irt?%&9wO=xjY%$qi<>xNM6&1#L?#v3J1J9pG#f+vC
zoG#ww=7oG$Lr>LLVmbpeG$l>?32wr*dv6)>QPub%I&i<bPQ8B+K3cEr|7E{cU+FlT
zA)*7HqZq_JM7Q>~EO`vKaurL4l-eLVaNo_u`1cYD#3*LB$8O8(${7>KbR1(uJ#L<L
zEgP9GFu#|okxGH+!1G7#10zrV4_k!`;gwt(zOE9@pU~zHyuRK!a^F^%^g80U?CHrU
zokyrdbl~gYt!(ET?&oM$5@bsv2fBBzWg$B7btfVJl&wv<%iZA-y?fiYz0E-#moRkw
zlDhW8(7!V^g~8S4`kG;%UNd6O@HuKtA%915pnuUU!-e`Owj>(V^#z}Qwj6e<tq!vY
z@~Sf+tHs^2=tit(8#Jzg9WQ#*n?`<ddl$RU9cS}Gb>Q`0T^?~dP2W`=I4Owrzz$oQ
zt)A>oFCXBTVLC2~#83BY|A+&J6VqvrnEg`5Vto-f-H7uL9+$1qp?h8J&vpj=ni)Ki
zC=!x_>Fl!2FqKs)5p?)?(sFsNX~GQCS#yYL=$gAn5O9@$$u`XVh7-|&_e1B=g2H;D
z4flv(!k1qURt*S<4!r-|J`nikr&xwn(YEWgN*s!l^B>XnA2?@^E9Wfc+I&>03xB-J
z=lK4m9MOU6Ns@@CvK_CPcTA(yFqsbJ^TTv3xUPEt?yeqH$t}7cdZNfx1<`@87dM{j
z@7?mCm+5i(s$TOI(;y~92hPXkP>J0o8Ka!#2rsMX;;Of;AJB4!^D$w|Hge<{R$~a%
ziXc4|PDnv?;CeC~HCOh&-{qqi!qgG(zE!{s(Shq3Y<t(sZ|?QQkmCpgW30jkKcWL)
zzZRW>#nk4483Oh(RUOl&w`D?f;BkHGWLOttF8%m%TxBEVmqTM~3tG<bb&x7xw{vEt
zkf74Oj<_3}HoldJ4qVT4^x4Bn6n9-qYy&E+vNlKk5FPls!xhjd_na%rVEg*j)6L_e
z{$_{{T+i#Yvl8nQJqLaj{jF{5;M&WH>2#FYT@;xN=;D&=+WE?>;Y9a)w4C93)|J;+
z6;}4<zcQS;n4{=>A_dcVQ`mU!%!Yy`Q@2FlT{@8zGfXFiaB;nLhIY}sjgj)kwsT&b
zhz`6icv{+1<0tgvUzR!YE*%ex9e#(GPyJmkJ>E{uqqOuFlsUwQ4`d-aa6Pp2)86N-
znTKUx(LX--I=_#I=)nC-tAEs>qu=DoxszALuji>X0n>>Zjchqu`ihO?xp$Z5Kv5UD
z884r%WxEAxt>@E0Ethw`=BcV9VLG}A0a6FP_vC+koj^Ul(=~#K=)m{OYQ!6gF?&SR
zMM8GuU)1#PwLx^?oTaH$^+v~(Td$>5GKKoAw(ui5aNqrpbY3=%Oc~$Jr|)%LiL!&-
zgqO3e;k+DO&5->z>*nELmi{0Tq61$~_foPgi%|@n;M()(=STAoHhzc>oKN&)8E5uT
zI<JUXft0&hYR6;|9k`yG&xOwZqPtX_K{jA%=u@PoLv-N#+%Ws+lPh%BZEMn+cXmBb
ziyD55m$S8F<O-?EIf%Q~FLpfH-6#vw8Go=Tcj@z}NteR$`0N_i$2ORbL;dcX43@uz
z4#xL#H0ht5<i~XU_4<>qi;hpJQwUorKi?5I{01+dMGeQKVg;c`B?qi)?j;a@W+6K8
zx_B$G7RrDBo6?kKATw22R520L;cny|GN*9-(rkC>c){l~cX31qp3k15Px{Fl+{WAc
zyCWlPyb|VL<K=VZCPkX2s$+}hb`|y0L(84zhz`6i97m2n@46c6)2zwcY%aJ!8Hnjj
zZ|ZVfpZM!hd9IDMqBNM@5Yd72X}0*ttjyaa)6ChxnqhmgjtSH8-SMZk*tz6k+^6mj
zY%O$KS{u=FhUd@d@29)e&jcg`Ck4~lwIUN4EL=PV92-oB>nyR);`GoUa0r-=>phOQ
z83RJBz?pBr%SWS6&}04YQU`D<F&*8jM{|>Mw+R6!5YstkFdQEn5Pudp+L+FXnEd{h
z&ZD!yVZwC!6R3<r%6FUxPIo<C&iwOXxflGbp8+Qe)48|TsPBk&(-?4wm<~hHme<0X
zH_Lz{j_Gtwe)6#mrT74xl{&n9JUkz$9dgx30ZtvJbEU*PdSLHMTi}FaI`SdAqNFtK
zGl64>>Bw{q+uFsgHvxwe(_!tLO~`3jSOm^+End!QeXOC^2$q__Az?Z*=EB2o>tz2K
zmj|Y!Qkhk{TglY`)FX@OxbW|>&2Ugu0uBYHb11;4Z@XEt3UHch@Ny3Gri|Zmxaa(z
z%Zp$8UfmvuLv-NlX;4(&p!bvx4R8!Gof<~9oel%?9>8J3bZ+XhA2B|rICc9#XM@k<
zm$|L4(DH%DMRdQHocAc~)}OH#YOG=w^l^v|e0_iRfb36XURei@8Kx6?By7ewtF2s@
ztTUiGC-saU(SgrnGqiEWzAcRE3-0WW)k2jq^VN9y$jR3((iH_W0jC_(ng4p4UL$#j
z@YLzw+7mou%O04H_{~>Gg;(F&0!JLvDfsCBin6Dk-G`O=qb`kV%lu2ce9m81;BF2c
z$^rc<M|9x%)BT{aWGsL6D{%ZU9R|OM;Ek&+W*{FGL<e3MM+k+q`I0|WfkT1m45>TU
zJr9rG=lqgAXI)`Nx~>W@=YoL}@5<w$%H}g1YIT+W_xn0xI+{A0ZXtvNS^g2atiCtu
zkEtL!+|cWBqQ%`c%d`jYjgIUeRXSj!-;C(Meb+yr*d)f)?&6r#?jms}UM3FFVS(y-
zdOk9^pZ4fE5e>I5@!?Y+yAd6D-_WF)mHBIU`z+`e3DMz!>fx0XjTX|Z9sVO5=J3Mw
zRh}&3{BeMsk_o4+Jg>igO=a*;ZU`uj=106<h(k{Lp7kVYi{JZ*Zb4Btr^4@=Azqi^
z_nq$ey?mx#`^_irv|1@UDVjMOL<fHEXRqP1$vvM~_h@fzkdxy_Ce(W1*Y!T~9LbJw
zJ!@3ZWqHSm_e2~Ku^#yKf=m*9@=Yr}5zoX^Iu%Ez__Z;e-gl#mvl-juuZq7gwmmvN
zPC#_v=VQrE(@VQwifpjRE;iC{ne#wBN5T8p)fwODONKXMHXfzEWz7FLUWYh;;P)r+
z@Ykzn`p)X-Z7uUqQ?l4eMs(nDY1N9b=Y5(SEWh`HVaL){G1Pisr(xk(#ePOQ$&nEu
z*RtsvwG_m9;MdVOY%`rjzb0-Q=sdB%fT1Bi9MOT-#etR+Ph4%@*bIC)n#ryAvj+8?
z3BQhZchT0KbX>tcb!04``l$bIKg4=qhwF&R!OFSHQ{er6Hi!;9e{#at15)bmXv}U3
zRv1=O7ozSzutP)bPkAN1Veuwc-p<hTKMxEep6g&|t>1fz>&wfE&xXdQlIh-xXJI<o
ze9uPOzQqj6Hg8B1oDLFgFrAJcI$tUed{1fLOIXt+mN}rFSK)D`7d-H{*O&5lUNMsv
z`CDW)jCrn8sxvg}CKW!rP&~nOV3qS{7N+A?rNfu4a>8=e(SM-yuAQ0<rt={@?|E5@
z%#%8qBC&4y{%n3s$GiT@ROZJk-!mz1Ns%<i>W2}pr|@}Wgo84G@u1k@taP<~QQo?R
zBt!@9*A{8l=ffp=6|WC53ua93RwN=ia6Rs71&yg^R!naec+u_;6EqP=bl`f*L_5CR
zsZBGwdbRUM_O60m^N8mb*x6}Ld{11wGVz|^{M&w={$@F*^EAdG`BiUhf$}Hr88#c8
zdJjYgK96aaC_B+FvnoDnSE#IzIGl-kUWIcW543wb;54xfICO~hz|PUft&iR^trW+W
z7LJovW<R#Rz&p>=_s{KW@y}EOP8_DwWKX%%TkZ6HtM;r%tKn1YhM3N42^0P-Ngbh;
zs%(L)Tvdrom`=?8!LrK_PNWA@^yr7kNM32J#LI^isUCF2SC^{WN<-M6y{|tG(`g8(
zKN3*kzoW(^zEOQ?Y19zYF*s5%Qx@(}B_;TVS28K`4-=vT&*uT2A4azrs2v8y?|Ml~
z^t>8=j+PJXe76n>8#7ZlQxRqtp%VX6svOff72+Fm)H<?#`O4^$!R{=vKtu=LH%8B_
z)h@=~^EDD7?Dc#n%&vmzgi=59yll6yH{HNeYqBqAm;%$GH?tF(iV3r9=;bP-qaHa_
z_Y5s(cwDSZYQv)uQ4w;B2b#00`CkWOI(%lr+dq7+O_oiKda&}NgI)#Gq3#{BJUzWe
z;kIh0@+e1jg96jp@+qB>#FSs4e_AZw)XYhu?kQS6@O_i?=k3q^!!LF2Q}3qsF=#E!
zLUiDq<@c5Zji+9VR*Sl$LEW!pXoKm@zNz{#-EnGvVKcMS*))oJeoQCn-7Wg+)t$dy
zs0#O$gx$F_T!EGkyiUtxuJ@0+n-q@C9e+uaeey#&q66Q5#od<dTqSCM6FHG~hxbC7
zaW|p^_e-U8+c|QQ#p2OgC5xxRX7rVa4t)Pb+t6tCcWD3S9bTnS<3{%raflB5IgY0;
zcTU$!{7EE_de{9;tbIsAbXcM18?%eYZ{E8>X9BK+D~Jx<ugck0x#+U7$KX2HjOf7U
zgod;ArTtE{=4t!pq9(YwMNspB*M-aDr&e-qZp$~P$3$&T_@o;m)&o1f?rTE#98Cnl
z`@@+qoghcm)Rbd262NJFg0?Q;dZL656c9goNIq^#;IT56D~rQ)uD-1t7^duN2aX}8
z(_rMNsy$*Xe`(;B0QJM2qfCen+;>XdU)FLFo;JYgevFn6?ASCho@tY4Cjci4)A8m^
za#8fx{tX-=rgM_2t&`u}lN~tXm`+ixbQe8q(K>Ke9^vKlQa|8l?}wTQ;M8F{rfeKm
zI;UMfy=T&GV7ltd9FFL~^SLGOR(srub8Gn_*SuQX9r&~{9p8H|7Cr{m_Dit-bZZZ1
zH=)CH?A+D_M`!suBu?-T8U}6u)?AL3GyI(P%fXEgbAEm%_XvVnd$zLq)*(9ZzPja=
zI_(Ml?THM2x71TQ`TxctI&jWc_r-pie>g4;979a!m{Wpg5yx|R;4oo2_ZO;d{$!pw
z2%Oe3w4C8_y}G^6iPd-EC~)F1oiugHzRWAH%=o77ak4mf+ZiG{@b&%KsF=Lhx83zE
zv$L}$LwUXgL<fGp%E;$`pW)D(rQ@DTgR&t<O*j!9`14=%%In&G`>jG|tqv3ZWKVCR
zI&jYW^(pynM?|Xj<<!!?SRJtLF2(EDr<N`IGW!NHo;tQrd%IGeNI`VqoIN$gZs)EI
z(F*+j9DUwJG~ENyfyc!VFkQ&GNsc<RUjK)0yzjR-rc>~ItelwBR}Y-|61;qFOD1(I
z6mZJ}rySD}P?<XGyVCZ#Zo1CHWXGKv4@}2`=c0Q&OSB?z#4#N?9TBO$dg(JsH&&~!
zToEywFGkB}FLYkrC-g4wg7(|LOy)b=T2#mQar0qf-&~`4$2||$DQ-UE4?4tOcGE0_
zd5D`2!NY<*kx)C!cl+i|JLTdo)O_G|;WhsDxuntZ7>x^KV56d7OEY55@arHQUHN~P
zzl}U^9%u;Odi_CQIidsKH+6|<^VeQ}5+O-qGWRu1*dB-I!1au0oQmAk3)y-u)irQ!
z%(Kc5(Sgs0KVz*Z&(<B?0~{4hhh6Phb*)u7KXB+U9mymey0OoDTF&>M%+TEv{;ahK
zZC$|Ei~Y=FMD@?*@g|jj<mui|y4E2&@OdNj1>;_ZQ3v*Sd08<*Ry@>khz^`H&%48H
z2hMjkW$b>T_Cx%eff=F$*ArtT|Hj-_-+Whi<99a4;8O%d2cAE-J-Z%j%XKy%9Q_{6
zDrDEhgy_KII=W{=&V#CX9rUaFAzHuS>&|&k-yHVRL?+O$6ii1sIm5SN$DYLl6ZQr3
z5A83TAv*B54hLkLU;SK~wUH&-<i62*hab~fnvCzKW!$O(?sLh7c=;T)6!?98HEbR@
zBuvMeDx#@^UBUx6L`>&irt@8w^Ow_sL%?(n(^<$a=dO4IhfKoDXWM=5om2BqpPp$o
ze6VNh)&&x#lU2$4^^Y=l6nNc%i0HucN7?)0RbylJr-wR)-sl~%Rue~bn4s(XfY>#<
z+S*tb&aVZr4CXQ8sP(}6;rXCHq`{kWj}_GBldZ33o-{+O2VSQKRI<NwB^W#n>S)Q>
zKfXhR6VoAY?<<SsZmP|bedE${A(f@O0Il!v`*wt`h<%T~JoV`Dweu8rQl?$Vhz@*z
zdc1Pe&G^QU)vjZotiJFSydOq%;CyzuO!htvxc=$qh{5%l*m{*LL<fEj8PisMrOeb|
z(K@}pzLBefZXVHr=izyajqH2(Z=TqGhAyM$#d(8DL<c^%@G4x7$@L8y${8&BQ0}Pm
zHwDpw`(^GWtLONJihB5BOvw4pI5`rc1AkwU<-LpPgycbf@cI|({DJdv&r=h1ra1HE
zb2s0`!w;&?q4o=QGDCvGqNyGi%5CmRioWkRNkkkM>|Bm7VP!g5)$yi2aiL9ngi9RJ
zf$wweWB%4N*6@Y15VZ8{w)|*8b>Mmkd|8om+}kFfwmQnoTlE^R<fE-q`1yQ!(evGL
z={5?UI)nRVx3ynlLL3)dPY$=+exfW{{~Gy5%5~nJ$!^4Y;C0Gu`D@~H?a}NKnNAxW
z$B*|?FrDfPv0oJBA~b*AIFq7cMOAEu=)mvuoVor^r(oZ;vF(3%TBfLeq$DFc@VNT6
zvHL{m3WyeN=T_ICytki(=^U%lHO--sY!pq3y+$dJ!9m1yKC@;ydfe|2OV4{<VfnLh
znSkj`JrkAUXj&}@=XrC4dp7De`2pHIg!B11%bj)I=#s`%e{5;3pg1!L)3Gofk+fh5
z5T)Cyogh-u&qc&^(iO!i^!OazfkVJ_N{0&$iwjGi$r#P)5hXPqCg<Vhv-3s6+HRK3
zgTNu-I-feFdzQ{71BZy|B&wz;t!_x^1BZa=?BBT}5FSNM4;*qXUOwDH<s<RZDaJ0O
z)aIjv)Cdx$qeajs?XuGM1P&3?DX2f9`!#_&12_asr~75&qb-SVyMRN^!OLfKOHBR;
zi^Ge+Az?a^_o?4a8C|0W4iVF_j4QUeW4_-GI0Q`Ryp5ENXtAO{aLCzs`S9kdybhJJ
z%?1t$(;1jd9nbC^*aI9QrsL1ElShm$CjmGFOlPhz_sh~6UkGr>S$O%h_r`1dAW<m-
zhlJ@2lB>t&Y7#C0hluI;6XK=?EVjG?4gu4#KYQtw{M3vqaLD)Z@_DhpqUUSZyb*9n
zm`<AjmppTH#!281F&&A){d3>`8uSB)fa&B+=uVjjC8h$0oQapu%+yaRmy`F_fJ4G`
zR&$#U-u$(31~^1a$LVqs6J5B~H{cL3o%oABuU^(Xbp#GM11}%tm%FxPpQN~N<ZJq}
zH6|;Bgy~Sne8>}#Vb=l<5z}efqIK1&^|l{y2$+tQ!ds77CYOD{A>YHxhet}^;M$}7
zTfiY<I({m$FY4SswgHET>HL~?q8$@c)dda#(}|#MdHZuFqZ2sfbi8~tl9hLG&;Km|
z4hhp~>>2R;+h0xu4iVF#HoC$!S>C1u90I2E>jU5MXAhO8fkRHi%jZy^^8jmd9~W>)
zn9j^GmrUYSX#wC6F`dAb<15u&uS$VKz;ygGgMLNj9<%}uITbITH?P|mojz8p0EdL>
zP~M2Va+Uv`DR79Gj$Pp3CDnfJ8^9r8I#;d>1cfB!F9V01f|n1s|KigW(e{7lAqmqN
zyry#MRnmJqP!AE)Ilj~_ol#BY1{?yWGZJ*6{cK#`N8pf?@$xabN&R6opNk$iBuq!n
z?F`?LMNu|zh?q{#AH$;iH;<<Qhk)sXE}fuB8n?d*9C8v~KILzja&zl~HGxCIbWT@z
zZM}T&!Z+X$F`a{UmkI-)1)T>D0n^!0Cw)}rqS8g+kQ4Fpk?Pu~K5p)t3>*@sll7;j
zLa>MWKi4lzC*#GJ5#!g|qo5uFrc*JaslK6_co{h4yLkCry?S^-r8Hj%I3!F*X0U~4
zv^B^bI7Ce6IEC)M<LozH0Ed9-$oSo09Q-qx2^?|)UOuX+`V(KQQcnYigz1P8i^rHQ
z-rWiuBBpcmN6)9$^t&#=Az(W5%&fV-OcVc{H^}jL`5a#Jy6{K9CJNL;!gPd;IQw%K
z4Dx|P#B@@3?J_Enj8_B>0n_R3(lGqi#r)6x4*3pVK0IgVz5MF$tAlz-m`*)!CKqXV
zUjuN6n9iMF<s<Jse`NrNfa&ON_Fe0K;3*FravWYhk#5;8_j&^&fkVP{It7&Y<cI2`
zfkVV}viwhd6;Vie1{?yWBffIb+upe2pX)L?7B8Qb!w32{wB`S~E|V}FA7>ddTS#6R
z7#9)K*>@pFwnFQT0&obJ4*x#ajv<xn|5;x#c=?=K5li1vyz?=rhlJ@=-LmwY=U12k
z4iVE4-gT(%kjVX)z#(8dsv(}&?*6jQ0}eSFFQ2=`MFZcNPW%E63Daq$*?5~EJNq3t
zL`>&1(Q*6TQ8fZ^2$)W{MO$#x=h9i=kZ<GVBX(c$w2c0~BH)lP9g%ZwvYFvB-M}GY
zIx0*8XUwABO96*~=@=_=nBKak`Omr_N8#mjoR!m{kYa@j)I-8_qV(!`ygw$c0EdX_
zJQA$ePQ4SY1{?yWBb4W~qr2Mc0C32Wc=@QkW~kSgCUF3Vgz0R(t8({ZII{_Gh?vfh
zqUGqvn&l?o5HKBvox}@4Yg9hKAxGfl(-`j@-NR7w95^IQr%#W!L?V2@5pal@PI2=5
zuI-xaJAgyLbfmpmFRQL=)B=Ybj+c*Q=E>I=?yE`zhlJ^fMby9jY$?bL93rN(?CAT(
zt<O3OI0Q_mK!WAe-rPG=z#-ql%V&!9@>f1;nlr#5VLI<_M5%J@sryepn2x)#wCL&Y
zv3#H&0;XfEliyAL%;*Xnau{AdCr+KYw03JP0yrd0r#8jCIpVCtG2jp}9Y3#S*M1wB
zPrxByI>U1p-hZvts{jr;6fd7i0bBb=kuk!HvbCWSLQdHvL<fE!S}bi|&*;{=IpBC;
zI`nD37)<u1rT|A4(-9fzP3Aa1Ap{%>Oh-k8dNFNRAR};^L(p=D^U*TXdKcQc!w5KW
zn9k_AtsSHMMZv%^!*ph6XE?o24fFtqAJgIen6lZ>wc-mLaxh*#MK4Ub&o{b#15P=n
zlbYYgm1cUr0XTk`j>QGp>=zPZ&w-<Y>0EGVGd#TL>U%dw^LzdthZQ<R2Y#PkJ)f71
zU`?k8aGHbAa)zB1t?N?pX2VU=LJV@*k*1d6m`-d3?Oww4q5yETF&%#+o5=^C_YMJv
z4%3k!WOH#Z6g~h>^G&>b+E-1^wsu@x08Tij(?4A?)j8qA0~~Ek$6coS={vv7yTGBt
zbT%e3Z2sz4cmt<75HFu7mH2~db0!MF3CDE0r~6#>cFpDiM;p^Q`7LpM*A^9i;Lu?@
zd>?X?OP0210jD_tFCS6$1&i+&wo3sg9MdTl-X<tjeaHwn+L%rrckI_|-)4M(Lx<^D
zy`uCEKlaTZIL-ce`8>7M<f1viFbte<Oy{uPzClLgCr-f8#&iS{*?(+X;0gr}9j0S>
zB==9Iw$69pG~d9>hn}lA+`s1wJ8;4=oy7<CB;%tUw7}8EbdIdrCfFSvp#TmYrqfUN
z_{+;t!WZB)U&qU5Q_gs=b~vvWaKbSiM*Cyq3R=pqfTNA+R7`SrNUI3_Cm&2FuIbuO
z=>)NOP*3wUynIHRIOKJ=J^u=va7?Evc#8k$QpZl<Xk$8elpcQm^M5$I?|3Tz|MBCL
zak6EnjLcB>%r2Y;q3pd^vUjpM*_))05gAzt30WPHmA$h`AtR&seZGHO-nZNJ`{%m7
z-v7P-x!<18$2HD%4msMK?;r;S=&;fG``;oq&xIVUFIXR&jaxbrXU^I}4hGN>c|9|%
zd3Hn@a?pUz*QSQQ8~wQdoj-t%=!0)u2Ikt#&^%Zlus#dL%S@GnRYZ`30d%?z+ZxUa
zTD*ZAG@wHjk8ia6vE#qzA3*28_8WfW>TW7D57ry34}Rp06hB&)0LZ}rI%>2(LgoEm
zNJ0)8&<S~A8W<$}AsBK{fDU(L{C=7eWjEwty}<gEY*<#>2WbRB4hGQ45%Z_jI^%dc
z4;s*UqZoLFFZkB!^^O8`lq8;i2{6Bx2JMCQ1naXN^zGW=$6tq#g8_7oHT8#yN|bUS
z2My?SQ)%F+;z^(0H&B4iOugC91}pVaXdbKwSRZHkY&YR|2Fs9x0d(%K68n6Z%ew<P
zXh7!y*ZT|Q5~M<qg93DL6-vx?to+YH4%Qv4kA*^(^3MGLJjlTSI{&UnuQz73o<47&
z0iBAv33En<!_(^>1?YHBcHa5HDWU}Jg>?h#<9^03clViA5#(S1ofpQ+IJYhM3Lpm!
z=sb<eiHo+|kAxf)pi{K1LU`k`TN&hFUBUWf4Q4wi{rd9X^C6&fSigJGw#)hxG!Gik
z!FsyOiZU$9K@JMg8A?(m-_xz;fE=s~Sf4ZoI@i@lyrYnV0d#m)j&9be$caD>8qlH9
zmLN5>-a0+*C_o4IbLINiU-lc&JXmM2KJ7X++z!${_>hAEblhLvTuP*}6Nel$pd-)u
z{@8f=-s$^p6rgjntG`{swRaJk2kQjZXJSV8{LJ^SS0M)j==fZ;Bzh(5!wETPKxc%Q
zcW^j5>h$v{6riKnJ|Lj#O<xSngM9?n=e!`r&ugA5e2{|ybkOJzB-V`wXvjeWI<u2I
z_cZF9{=5GGI`a3-+R+Ljp3pp4N3cGjzbzS*#b3RJ91NhtFC6U3y~lKVy`ur0{A~}r
zUH_^7K0gF>DCSKZ4VWm-L3?2zg7uLp!{?+?iD-Zv44`wF^oizR_(2`ypaGq$i=Jr1
zb1Bo1g93D-xH56Lw{cq_2kQXVhc-rl?DE4FO~}CjI%5|C^r@&cpFs{9(D~{UG%$Zj
z^7J_h1?W6WqZGlvGx-ae2Wt=3C+hPW6?4*#DCA%O9R<BEiQSTUEyzIwIxlf;gIVhr
zPv57Y0G*t!_}sSaqL<J-SUa#jvR}BK*YnHpKn@1bx%p0K;{$r|^gf0LbT03?v$s@)
zoW9>d0Xpmk&3B|HZk*odv9@4+?x_vclPNhoKJ5eOTpIatL;SE%0&>uRPG<M@5D6X|
zZOB0ZIv>@=i*@hUojyllZNU0eJ8C!-3*91x=D`3u-qL07my?_vAO{WTxRW#tZ<@JU
zLJkVhiIJLN&nHHCLk`v&tWUyh8}W0=#wN(Y06JrN#`PC&saQY`8qh(<R0$QY4&Q(r
z6rkgR%ao!uzQF=HSSzqTmw4}F)_i$w0y!8!r%jjipyYsv9&*rtjtn-Vg<IwQ>FX&9
z(D`cE=+>Rhc=|a2))K6b%X8yN@#c?rp}jDG&UdYbTDEJKPe0E@13FS~_Ai@TJKTom
zK><2MUs?^O-OrqUPK&hw>tk!{NviA|EDg<r0d!b+G-)#eY<eLF4d{qG8oZ4o`-B8?
zP=F3`Hk%82vFah@V9mk$P}dYma=dX=ha3!`voKQ=r^hEz4>@Q+$If=8lrGop^g2ZW
zI`7TDR2cocHUiCqH3REIFc)QRdeD;uIT%1kOe0gG);R+MIcPv9lG-@_KAQCOeF_TD
zp*NQ>B;wULeZ9b%g7sm;Jbhex1>*<pg#mO*vMxS3Ua@Y695kSl(?xD8WtD#Vx`P6A
z;zjtJIn^@Bpn0$+V10On>oZtW->5+j2GC*I<J>dkN;!QVLjyVliwc?_G>(0tc~F2(
z$dXP<Z_e5O?mxz0eG=px_3RCvUV!Go06M=q7gSUKD6v5f8qnz*Ac~IvTT=}=C_v|R
zm&0!kukq8@Q>+nKpDM<muD!SRPoFn1fX;Ux>wURfm?3B{G@!G`<~zr<fM*UlC_pEH
z`hnYc4&CYRLt+iV`V_2KNE!=SZ$k560G;_Y`qoYM9e2n<13CluD`n(kR$oI73edTa
zS**@(e3St>SOc&=sU2a=7R+;Tkb?nq9Jepv9NirXha5DZ^Ign3dT=oF^z{M-=semt
z>qt2peEOV#)d%Zi5Pq#Ds=P`8+6x2d5Ut$1*2#u<3^`~(r<R{p!kWN81aeS-PE&eS
ze&Xit>CfY^dSHEu>hgZ>of$v<91;WQwEuV;8UD=t5wsT?(6LN?Odg6_b%PufphH{K
zM>*Fy`vY>Yx?p`&e*Vq;=dt?-axj37z!QeI4g`-*AO{WT1Z*i(I&#{c{vIO=&`JNW
z`vsjbei51ns{_`D#6*`)W69JGaxj3-ov_eL^kqE;kb?$vSpWAA*O~7={qOY)&{?>y
zO5r4uL<h}-)duS$u8a=+b+mPQKg0k!`3Gi_yRELx&^%~BN3MI>bmGy|-;jd>bgI1y
z)RLZ)pFU?|wZQruUXy3q%be?h=D`3uwQsj?TxwAK@BRbm)NpjYB)#5v`g1)Lpwn4~
z{!&OX=?d+IeE`;Hcj`KRVC?Ma=XDrBN7wmv=Sbzh|Ni|2p!0&Oe&dy8tRl1*3ec&1
zz+9Uk^<o8bu=m0Gkd9K{^6TT&g&Yi^<9sass=W5a>2m@a&{45!P#w6*c=~%OC_u+K
zHC>HQf%GY~7giIj509=ZQ5T9=8FDayPU3`}6Iwsyzv~Oo5w&bx-y{3|-_HjD9ULDe
zW78<Tv(R2x4X{2wo?YROe>`~(IT%1khC7#C(0k{<^9Rtme6K8QU|sjW&wl_N`4>^~
zJ9BcUpZj6e!TR9LDtXO|OxB$C0d$y2+}v@QUY&k!j0SY-bmbI&(DR>x=0O2E4_AI;
z98@URAqRU8td9##Dg9WWiWuZz03BRhue!I=KB|y|26US4Fjx&32y;RX3eaiwq2J<L
z6K8-NtQuIKjHSF<?*IdS3Chn>x2q*@U;v%?p!XR!{oU?C4jRzm+x;DG#Gj`MIVeD9
z>_Hx8<vqh1<X~07`W*K6+XONcFhC9l(0NH}9dPV8{Rnc<ppM6{ic${sa>zjeI;`hs
zw2gYCk0A$p7p#xci{t1i3c+^B!2midFS894{PRy8G@ui}^S@tl5F?s`=0O2Eow7x}
z?W$KBAP0K~tWUvI|0Ahs>F<z(0d!Jm=yF?KcyS;H4d@UF4-TADWj%FJfX)NTmqB70
zVnWb7*xO)z6ra|-OGw1ig&Yi^bH{*pI)wbPC*+_39i!IitlYHXe~^O$bh?E|>tZx#
z;vffm3#`vs(Fc7z$#I&Hg8_8j8;H?~yVOZT4jRyrib}o}?&ZQa{H3~i$W7rk3ecfE
z`4o|Q;9LqhSTtat!@}ET+Zwx&g8_7~X3xtOdT*Z2g9db-oUqWcjV#VV^Pm8og9rBH
z!57j_=fSFg^$Dj>I{(^%1s|FR1L)kkytO&r&vXNF(11?oH>NA0EulP+g93D{4b(^b
zyJbco2dfO$XVPIeM5}!v268ZfjtJ*KholUbBjlg~9r2HU`7gihvLSG^@BGvJeE<dM
zh(52z(ual6Kn_+3tWU7D-r!8!T*#Bl3HTH%aUvLm4*Yw8HS+J$j;Jq@Rz5#c#rkLk
z>mqdEe=j9%C`r<p!p%G&39B&bY4MXD(3u$Y`mkUcxJWT7IFXFvNgurl)(5|VP0iQ@
zuaJSMV(Y73w`n?{(<SZ{%XrhC-q&|%BZvAmwJx9&u{ZDh+q8s}yOc+_@FLMmdO#<(
z{@v1n03+WQZu?!Ue?&o}H<0y#|DC18T9LOFI&m^638q`BSB0gs5jybW&cNT+mh^z@
zonj%IuG-u}tSLeVJ`V|seNn1DDAbNbPWQR5`d4m*4t$<@VQ*=n&>?rZTFx}`q3e_@
zieP=@lP&1Uem<#K#^STl&Q<*^N9e%kspB<gv1Ps*wtf<>XLUw_%o))6SFTu4(MXb?
z)oZ3}6(T(+0O$lyo$06y>ubeV*pi4Jlw;adK-LF--{>3Zv%$An_1!DPX1eLtB{m~;
z;C-U?In>4H{G}4hzkKwm54;u#=xD{8ub9+r8((~I@X!38M20+|QztXp^fUC;=j?y0
z@wl1Sy>JjZ@bA6N`0(<(o9Ca6K#G^c{XBP<XXU{<mvPq$inn%!42DE*IqT0TmjgPM
z#KXPRuUf~T@5>HE=)jLx8&=wNC+Cq8<j4a$UF_#^X|3?dr5ZMFC5!rU;2?D1=ix}!
zljl0gL-wItQ%UjZJNkWc$U4KnUs&udSM+=~UC_MCtfXoA81F1X=OXNTw`Xi}!ZLsO
z6pX}<7pTtf26!Xf>oUyQ*g+-#+Hl@^!6J(hJi?s>J)Z^n3hxpujLx2H5ybpW_6!6)
zpRq4h3tcJ&{zA_iNY7{Z`6K1KIXu@^tt?!|^DjU{ayc7eAGi~Aa_NuC%=+|#P0f$W
z^S63T0iAQ(hnL8^Mssu1a~pGh;`OkAI&lx1K3%;YnsoinO>~;xSET0;e6PIG>7rYV
zU%a8`sBDDiA>8?$>+Yq|_b<8ZzCfVfW2Z$^K!=by|JUedF3ZV3+Bqi5$9yb+&dAGi
zA=j^*V_eC(a`-1f^YyGOvg;Inz2{R>i*XE3*iS~NN^^WHR4GU3!21OJtPvrNzBpMs
z#B8rBi#O&B=+rMsW#-@SdMEW=O+Ee`S%(0iQzcMN7Qn~Zf;sAB*L2F9-jqSs2fmk+
zY^H>l_XuU=coH$yTFZPnLI)3a{}DNi$9r&ii~rh?y!tP)X#)&G2Y$THe#sbFIIg_y
zxt(iadw4vli_n2TAKK3s22wSu<v`EREC?NVAAwsgP9I3<x7l-6>??5WD`%y_I=_8-
z@jUUY#rfKV9L~|loy^&QPHtP?_9~B18%lE8KY?UO#1zosal=@w&##{KEz8zFj{19_
z1)&4)e6-`yAw5E;F;Y!!U6A;kVdXlqKJfF0<bA|iOVG+?$Y}<2DprNgUki<q7AR$8
zQ=`V>r6Y9Ud-d)!m<L4P`KUy?zMgw<?tv*n2Y&v@{hgybmUn!^h0c6lw0rd>3!vjL
z8a`-|zM%>^vr@=9!{=eWZQUn3C3O~ZvH_j`oYI-If5S!~#}v>>WV+6A&QGFrH<Wdk
z>)zE?7C>i&lC*4z^lCBW%u0gwF%WvFU@XSX3pv?<&RlHL8&z7J6v#0JbQ%&-KkpFI
zx<L*Lpd*Hni0!L*d^*pp1X!QFgX8B8(q-$=JlTK_AFD7PZJ*I~$T0<UD0LMShbeUC
zA%_LfnPt-G8oL&;2syLjV0}hKCG@=1ZT~<{HlRa(EX>vDS5g8wrhv}cRYAq9FqsC(
zVF7e*MwB#BX11TsGb;wx$8LOow8-SV0W?oGpd;Y)mMrqXWFK-&0iD2Bmd<bI<1HbF
z1<*O1!njS~jut}BtSDHYZALQp%pZG3kdqDQP|O-@r{w!JLXIh*^YOwB%7wtyL&#wP
zbZ`eITHZv-C_~Py2w0ytA=lVsQ<fDVCmYcDc!P;?Tr*q=a!dgoTj3QW4Wr_3ki!D#
zL@E4?{2t48>dXp*_4&TH<?y}=#RJWg4d~D-P(PxG8rXmwQ$R<UFm!#qoF)NsSO6Vu
zvU_zmipg^zXI2QT&!0J*7wUT3o{*Cb=&b$L5%koQA%q-LK*teROXDKV2S&(Y0d#0t
z<nOHts(po=SwXNq4h83<+QRdiASWBp3IBXPQ1IJdW5_WDbjn)1Em8w7l|c>*pwsnt
zwCcpACIE6~1;G0JIClpl8ZLGEx|0p)yi@qV@5J%S2b#we&@qw>JI-QJcn3KwfDR_8
zPR^5;Xa;g-`N8_Qej_~peTO{>a<T!PR8=v5bQaAL<d_0FK|MmeZRW2}k2?#X!`sH8
zL{IMF(fYpfhDbeO&+Ij1ec<ma4K`xuj#MT{Ag2(}c^Jn}K;Ch#26}($jL?C<ALPEz
z?)dc5J!Z%e0CZf#^E*>|e!B^cT4^t=aujV|Mb-yC4@H2?r60I7wBDkL{%TD^xaEM(
z6Wzm<%+WvT)?e=${Q3KN$r;dzG7FTLci0ZU+7(lIL!RoT0HCvg4#3ru4cCI4O+K(b
z;&@+(`$rq_A*USBSt9iMX1!{<6L6WLUK&kg=8VvRe_q!qysoxfFYfYDef{Ap8PD7D
z2p#xwXCk^!WpTM9B)H3qyp6HG83)jbYTY&6@O4q<2_-9dsPtsKnHQ|HDIp8GABT32
zA(lw4;g!c|AfOXt@1H|Swf<D)JR=v^$Nf%ugbuv(+R3rz1^xbKmzdRDAIqNkMuE_Q
zcm8>0+~MPS9QQA{qwSo=;n+SNus)dczxKYAKh_^(*|;vF`ZGKp(7B#XQ(1PDU?ZR4
zc(VVnWl$ZV1ONHyl84MRlcutTm;8d`tE}{D0fY__>~rjgDhy-U=NdL=r^zBm@S=Jp
z5IXSA%QULOv$FgD#C{d{zwjwL+`j_W*-A6hYe?5p-lm_$J>Y$$S1q9PE<x1r{upgb
zeeT+_16gl|H$n&g`j!5!l1*OlRct<!q+cJp<eEG}2j2OS7bD&%=GeV;dHn4>zfd+B
zp+f*WUhjk3O_nv2Y57$2BYUmlc?A$U=U~p-a<Ud(WyRqqDiqJtRoygD=ia!+F=^O~
z9;`Oa$p`_#8d3*-KG$w(y3$De-6KBmJ*hO@nx;Uw*9F*K6U2@Be+xgWHL^_hY&5Oa
zrXzIV_aB$Q*6o*a2UUf4a_QQy_oUb&bl}H5`PS=;k}{lPSoW(Umhl@~&Ild&Ja#e6
zOb5DgY0&cq((~{NtWW#K_XFYv`^E>jrtv$g=fvd^Uhn5&j>Dgr>7PW8FXLyWnp_Sn
zipL;yXkd<#l~&@-SVbY|`DX>81OIu-{OpTkSu=vU9g-U6#HKyVW`qtoY@U*<<0N%t
zfA76oz^f5lHjLXu=)jNH1<%fRE&H)gQKkW&2|ADSk<J6Z|M*#xqn#KY%<p*#M`$<1
z+am1@zup-{7@iG}RL4<U#(mSkc`b$1xdiK@D=Ro1t^caW&o{r2{p^tiH^SFtQkb*z
z7+o4Gg2Hh~z4Ba`lQRvC(1GtYE~g&)@GVRH+F8Ac)xn@|NFDff>TK{T((r>ZMo5QJ
zUb3y(RvqCyWU#%CKeO{ji5Ti`)UWDKU2RhLM(DuLpC#Y>ZzRWsO>x<E%ckYds36@7
z{(9k7tuMsJ*l~~TOlOQ8wVbyA!g*w2dpW4<QXdpe*FwM7Gz$2<x?fXq<a9sf3&VKq
zud6Q|deQ-%n8Pu?iSV{U>k5ayruqwMx`57icRQO7kHcq~88sI_Z$6%)N9e$>)A?8v
zna#(?f)dzc5pFwP+gXI2;m=X5{S^E{E>kbbN_uBoT$|dn0i6o;V`|Tn{EQ|2a?iIP
zZhbNZbiUZh%MOOw#H^<+e{<Sr;$s1HcvLdV--bHNEGzqv(C+<7pGA0Ih4<-_QKTRD
z{A4_8Dqu4@8+Sh&(4lhgYN9%;&`(OkpO_n66lV(PgrYlpgfERHwp?7n&(HDPWC3*I
zIyFN@)hcnHHBLQs-=X%OMfjWmKMzT=q8XPTZD&C5zX}mL@Xp2Q1KV`HVxGlee(SH&
zaDtFN|G=H{s}}Y_S7lNlhZ}I7hHq0mWQouCAZLXe?EQsvkRona6PG>Y6aqRt-ogaZ
z(%4+cu?2Jn=22tz!6^%n!wu-1%|6iDDr_r-oE0vxK76>mlC5N)*deD7&~YQ(nVC<M
zRfHT{Kxa71cvWao#}#t80UbwkHH#k9kSye^aDw&m^6ek~Bqd1?Ifa0Zt<L#sKR(8%
zkYfwzRC{x<p(wpCLJl{e!{{tTJJ&JG3ppzsV0{kL615X+g|0zPA)xcnfRq(4k5meB
zYylnN!bq9Q{GJlX;RbZ>eYbvL@Ok63^9nmypB?%O7m}oDMxc2L0iCJ!6Ao*YwK>SK
z1#~#VMdxI;2~O{a+<?wy#!gpxZW~`{o)tE*K7FOr%<idv!{$~|dwM}FOof1sVbDj-
z2S=;lA;%Wb(chJLQS#Fz4|2Ex9mib1z99~iOvqWe4Auwlo7$Nt((_J`QwZq1xOjhr
zf82fua%=&eglLw6bVC9|$l(TbDA7;cnN#lngPavsus+{pt;`z(x3wXs5YU;RBQbjA
zdBgotL{8tLDCI+2KqvdSTILUWFb8tD0iEACd7Jja+d`1D!UEQ(-*Y?Omvv1CatZ;R
zjwm<BrNNrtkYfwz#OQ<+$f0phAcq^!IWKe7#q5RZdB|B|2J555tbBFhf>03T6aqRE
zD(zR^CP^tnjxC_0&J!}_<Mzk|a<~DV71u|1GI<0<A!mgNtj~m}skOycKq%xC0y-NP
zRn^t>o@hdjEud4kvG^g`&teC1xB(q!F9!SDdae7AvvLWnPtMoYhRQe1osd%q=%feX
z-%8W}W_d_QMiH+hBVr5aj0Q{RyA=J=ha7G|C-UtR+Wk5CeSfuq#j9a%yDJyL`qbA>
zo0<rYce5M&-%KqGq$mV*n5Pypd<iO(X6HE8{_3i?+X6at>okreJ{2FMO>X<3M2*?F
z0Uhsw7esw$AHTdkvO!?4WLvw!2-Zh~At95Bme{7PE+8&V+K#ml(4j9@Y+tC872YkI
zl{s&(k!cI)B+?X^4EwM*aGGdc{N(vNj~mblaSFbygQGZx2~2(chX${D<pNlr?VOES
zNjkFYFM?kskiM0sD+F}#wFM*t?~<m4NKfg%s&<~T1#}8eD%(5O=93F{cSzsKr$68Z
zbQFocR8w5eEl8~JbeyHAEm~m!>%&NJLCTVfAUxSxJL{(e&Fexyr=iRvFnIe-z+;Sc
ziE@sApe;fN{&T&DgMLc7uhUmoU)!oj>->sBBXr=OBe9)#J9^%6G4LtZH!F3Imt!bE
zhxhj3XUnS_F+3mRDGaBJNwM@`ozKU5Rj{c?O?wSm>dr;#J-`4u4}EEE*v=8M6}JCo
zOu1kkjs|p=)<zCe3oKt-&N;HLSXM2d03E$AgKbF~jp7=nEhi<DYsOeQus&ae%iYQo
zb=@Eb1L#l`Oa8t=cJT;u(0~rn;>!C5t2d^eld&c0AJU(r0G&5~<gGHA`1df+)sj-v
zuJ2-L!TM<XxR_-$Gq|B5KB?j>3r%4Fop{0Sl=@yT;Y0gUimntoQ8Ypa{&S*vaf?>=
zSG<q>dR=r^b@(>~5IXSdboSlq-=ySJp}8^6QmPAf_cv*f^?}dhO_@Hj7jr{DB4p!k
zeuCV<C_)E5&r2q$XHLCi$x2U0a70IAZl(h|4qj)d-#B~wOf%9BKB60x)dh5X9@ZUa
zr(RKKDWz*7?@BmN59mBpxnAhTEHd7uyKEWgV--6}jjS`gPo1s)*Glo@XVA~}(gB@{
zR#SZO9LCF#qYLP0I?%cejfmZX9C|>fW8^W8p&a!b<cv~*^$EqVD&dqO%7>hEKnL%G
zCTcWCoceIt(M`U``nN8i6a6~X{#YL^TlJBUn*9~sH+qB){O3fL+QPit>=D`1BaTc-
zKb%u%&x7^RyIuD4<o&l_`4{3xR?PGJvH=~XqXE45WTj7Uu`R^sZ#RsXB6Q$;9aSwo
z;CTAxC{ibrTr1E?nj4`5zb+W>#M1QNxLmyV^bVu=(4o%?C0HL$W}}kO5u=GiOYKRW
zWK>`wpfmZ=%zwdd{$|JD+oK0v0x7l#9eAIg8>$j>#;sCmEq~?Z{94}%Aavk;%-ugQ
znZ11V>S<og#!O7_)+Pm5pTv*3TACvH>%N{Zn<|R_vX=uo=gYNX?Pw@QcuAsj4C{xa
zoDn+kJ|qoE&+tq1zn%5^heK-_)+B+@f%kFcT-#l0@te6J)qIfx@7LFTa=<=`tjPgG
zU&aZ4E#JE+!&_Yo=up$M&GDdq&D>pWm9G54I_r(lf%myN;1#|9JWa#BMW(7W<mHMy
zLI>W**r%rG*!8!}*r=UjU63UO4xrOFwjH=b{CdTus-!k0@%BJ78M4msy?%Bx5&WAn
z+ZdXtF^qov<qQU)1K-QkBD2Qq#6HUu)p|bME8Yza=w#r8a$BhVEsMq&2+EKdXQKce
z!>p=p`iC*}k}{;ve)mjVz><RX;Upx|X}HC2=9ZqjsBry^NIXIZ-p69#QcRgRiF1}1
z`Qz)vE_CXEj-zsNz`bh6zy2x>cH;gWycB>AG0N~>4v}4MYk~Vr$_<C2J`%7#z5WT4
z*aAy-yrED%I+e1vbc7DP&utq<mU=OQ&Vr}6qDAI9>2v`d_Ia&4JgGRX(EE3KK!;$$
za97oI{;v-e=dafkS;?cs$ojzdI#KO8aT|R0$Wum5z*<m-FCC!+zfSdvDo4nPef{1i
zW7wyYqXtY7I`Da1Zc~iAtbQ1?=(RT59Ivfq0d(xXNqXoFE)Pu2ywt{5{UkO^1lFfA
zVt`t>%$i(y?%FwOvn82qgbuvVe2{%q#o-oVPuGY)Rh<uoEkXz0XV~;|^+0e)T15RC
zO>;ALk{i(Zpr#?<E1Kere|4BDaiL*x<s7m;@V$75!~2ZO*8>gGTO0Wfzg{j!=)m`y
z?})fjvT-0pD~rp@uSad|jL?D4bKm5W<Mj^fTQ?OlI(?Iy{Us1O@OjA3;tBgVv4u$y
z7L?l1TW0K|koAE(_a6Oto+Qz3*FRq}+owB@TZ_<v|K6!4-_yg`@Na(-vgS?q$lg$3
z5IXRAlpo0r;(x<XhY$X_8E7Uijs|o-XUW~07f(5(_FHy}Ompxv3ecfwl*Wwo{7om6
z#jFJ#-uA>2BI^u4?j2ku3%|Z=SQn@1Ewzc^N5vy_;C<>#5^9^jZf8Ex61Cy@z&5T9
z=wzN56%3UKHTrPn#N>%`V>bmt2fi13uV)BaA;u!eQsvW^=uekM36S-H?{)220_X98
z!96<j7cYrlhKQ#FI+y#zTv9*p?@y|BSKoc(=d26pv?q#%hhC4;`299_MGD7miyol^
z?{jZ%N?&41(0Q0K`NY>NJ#H2stWQ^f*0|7<gRv*acgA|AR4TIp9o=hKm1xR8I~QMD
z*^JbDZZrjSf^V}scn`iN8h(*>Az5E?fd$ZU*`LnS85Ixsdb>@mlG@<+EFM^&ac}bn
z^!asa^bKFtbuuUvvJpD);}yoOys@C@L3&5mi7xEwx}GgU2Yx=k;9QEhDYzm1<WayA
zPVY7wZa~LKY%+%u?_2VXfAwX#-q#LR&LZmr-|PJuqAKNJu?dQjw>O{N9=%YG(1Guz
zf7FS4Y?wC4sM{EpH(k5x4Cs9Q^oxkDZZHq~j<2p^zjjRkp#$G*f#7}c)3bu1G(u7<
zih@+f`)82#f$ycKeAp>@>BiHDF*?Sh)*RbfKqv58M`iHIxzGTOjb*ApXE|>`XF|O@
zY^O%s`1*d**@s6Hgc1lHcpv+ZIZBr~y0RV<tfr{%l;GeXbl`oMzHNDl5<Mkd_T5*D
zf5v^k85gYc22n-d`ObcKA!Zf9ON_xvfe0P=UXo1Z{^ddMGE;t@b=n<xCWS`m!1qek
zR(1;chYfRPpjkgYq1!+qbl~&+J4q<HT$><6Tbng;m9;FY4+pGIR>)0~JB^ylwEFu~
znJmtR@qo^(zR8C&w@ryM2E4Mu@21J>2p#xdp4&_mWb)r}rM1@wYYT2XphxJyJFDtP
znZNACdeO}eb8`t}9*my+JNdu=VE<g`|NCFKb5(X^bJ4a+!lL_)IbBd5VLG4_kKbc5
zQN;A}H?b&_ryXyzE<y+1hk0%e_06KRhT`~QLeQ^D-~atVSD?Krz66;&4KQ8oJGgYE
zd`M<z_8815c1(P+r9SLgw>z9(EjB!mjnIMbm5su3qT^d=e<m;cZe8T+u|?>>kJtZx
z1>db`#(zLQ(^V#j<4+qmpkv@sE?szhC~Esdf!<6^+;Qa}Sf4P)k>-lm3s)lCefNZR
z3)2e`I`BU9J)Ak$+Af-`;O&Y{;`C)XBXr<>;&c>N+Vhx$1-Sfq*kz-m1ppmts&H$y
zU6PKV#KZEpt9e12f5G|;MRp7F^<Opqp;+3v!;AV+j?jVksd8E&P`@cNra<<M-j<lb
z%p0Kt@6$QWDYxQqJ&vC)TjW_r?3M(eV=lcG7)>gWGEZ<2`g!qB@%|B5pT>`3lGRr{
z+M3>=49*eeJJkX@7u&0EirrGoWYeQr@Oyr{+#8_-@9c7hS8E~YDHp2i!{TJS$&@@o
z2i_T#rS&@@(P_(}TG3?xvNbLapu;M?>vzI&c`$<fXXL>rt6R;7V4d4^gDvxYDkuxT
zMej^$^e_h^bl`pR@jY-=huH8_iT`F^$?oPrBXr<>HezF>F-czS{x1hdCa#Q5q5z%#
zcQv}M%aqdc48LvT(|5zM2Vi}qLaSFL8*8!>7qb?1s-DDR039_<z?bMk(g$US?_AiU
zTOOeiI`Ga)^s<VWHb$u;!Lx+v&PQ)35IXSAx(p#(e;<0(mtHy<dL{T)t8X8y&*A6N
z@44#%{F;=@tiN|R_2U7Z`9E(xuK$@)F0>tWH>F~*Qb*{(`)JouwJx8%qP=>nSo^7y
zb0<AQ2i|9ad&saXzdDuKFRior`?ImpKVW^DJK6YJ;xKNeZT~uUN;xUg0UcRR@z2WP
zKYfgu`Xh9nd<@bBbO`#Z>SK(160n-P=^l^7C+Gp4XO0ffl^E2MISPB(MuPW*NB5BR
zfgdlf39mgNzr{fhyqqU!jX!zW2p#zGN`Lb%F!>2d>;~#kN#+rouPLB2m%+5TbfQ!m
z82kSF^*1HQEP&1*Leb5VFKMN;$ByFh^<PqFcaimh@AZQZ>qng=6nAN**o~iY!7Cfk
zA@iJ7rwYUkRUpQ0?Os$gGDYaXkJoqgU=l~3lD&aMflLv%u2OD<4ty_t_FFp-@8m|z
z9H*ESr9|_u?11%2yX0S{K5nL6YHiPu&fjyV5YXYZX~t<GCE$)on`6jMv%uIQbl`n(
zn;s9GdA=-sNVdXFUwM920HFi#b0ngi=O^$Z<*JIRmxqja@#Z#IpD!&sSy9W}%)x$Q
z*1TaZTIGPwab%~~UQn4BsWj8;x7ug{XFx{+kNNh{Gl9pkukXxZJHp!q5IXSA4-c$`
zsdLPJJ$`eNe#2aYa{o72pV0E0sbQrH$Lse+alZ)k9Ml3j#|5NWCjLzgy4)NWKbi%U
zdn0t<dpY8Y{8)bx-aO>{>9C3~_L)3F2Y&vvt~XxKGyAa8?Uko_KB0^k2hef-T5LR|
zdADRNpOx;W>9|bu7Fg#$T5-9kC%2YKZ)+N)R;G6cB6Q$=o;2B@8WJ1J{q4A31_ZEr
zqY*mrK65yIhp*q__w{_wU|8ExzKsHO-aP&Bvm&(Q`;_?Ss@hh!5$q;dAKlL~%x?p+
zmam3!A9&kMqA-At?Zf1mGion~Dk9Zya52_+qY*mr&dD!0>m5V6Wiy8Oo^EOQN>Lzm
z;GNxiv{kO+xGG|EDDQGhr<3(<fc1Iwsxh&TkW89;_^Ey4^*OzGKqtJ|c6(#TdAYG_
z8>4tp#X%jR1Ml-uynxL-a#zuhDClMGmDUgR2pxEz8Si&FVs5Dy&J<@>XhnL7j{XAc
z<J&r|QcK*gJ6v#I%{XjNF&&`;->d6}lkbr~cTH8yS3xO(3MNy84t%e`;zw3zJvlFk
z@SgauI(gZ!06Gc%nlVJ|&ZY4_3aSe`ds4GMk@bP^^*rN*_FHv?VnpKJo6WS2zl8`L
z_+E$0#-`e~N#CRP6n-%8=9k+7I#$G?=gOM&gXtTY39*U-?A!<)_+E_*d)?QGZv?O9
z@(Mg#+MnE9N7e_vS24!-U2#M~#2f0C*GB_(Z^{9k!;#4C$j~}XV%b-}lO7oJIRiR)
zMxTx<^<(ws?wj2C`6%n3073`e=QloCc~-Gm?)5cEF4;cgzWpCyeR7X2jGVS<IZ}?p
z|9;FBcvK7M@DGy=f3_EuWXdghrd%R2?G5OJq03hW^#sTV(-<Eto)uJ(0CYY$h0D7i
z6_tp&jd$iK&Ij(Vf%Or7!B!xf+cRp-EOhO!mAiW_LI-}l;&==x|7yKjtmjE$_O9Fd
z7KqS+pU+9Li(`Mb&~X=3s&L|;OgqT~I-^@Lbo;jY`GPL`P9t4rwm1kK_+J0qh|S+m
z%f^K<vLrDW^<c59V4d%^6_4Y;jYBz>x;?qfmG}??=$z-58OA-fcw@2A;=DFLK92@;
z3SQ=T+{-YRA}YINzkVplhC=AT`)py_+G@1fk|c76YS!13-}SA4^_h9*9vqus6sGc*
zt;_pSBxO882R@J0@oVw(NoPZ>FdC6d(`V#$5jybmkUX`)i-AW~pM2IRTa4osF+HGT
zn&wNs+G85fztU||q-!QTx(wEbh3u6;)|<NSt8eW-i4vF)rz3RWeJC3y%W?Zd1dD#T
z^OZ0f6qq7(;C<-Sf6MjWbzL_2Zdfds7)Qzi=<EwuS(@=sTuvGDZ>stp7%;nptPgxI
zQSOVLy)$$y!G0UTivMhj3K2T+y+k(TBLisrhawz`O;}o&)olTts*<(q`lfG(^T|6_
ztEv=^xDh(=z0|VLUr_#-*Br(6LOb5+kMrgtvOe&=q<X(hGW642%3PBXupi8yDF<|3
zEAvQMee*l{>efneR$d3k8KDE;>-Xk*^~RL|`CaX)aK`qdAPIyHd@s-Y7tV!GC7rMo
zWqicdqlnyJ0PCYqUp$RB|3KPUM^y7YOUa*FgbsW!CH5!eFXF0x2S538VcUdmF%Y2x
z-|NcyADz8V+UeCNU7GzCY@g%-oz;S135m|`Ryv_Me?7J>dmMxge6PFD)GK=v7CPw)
z8gggX#uu>jV4cxf%0@J5(IJk1UP*J|%4}f(9ji%~z@ZK;+iH!+c<yHd?a&Av_+B_c
z+n+`AoQ?SPIx=^ff|w}~I`HFV<n`KvrMM3L`*r*eyvw@teRE)aF21BMw2>?1QJ?;W
z(JmU0j7R9e_hJ@$edA$N?Qm2_-!^&0$LqQX9r#``MG1}X!f^ty;zBsDh*V<e0iBo6
z$yqJy?xK9lRzrS<SCx!@2kXPucd<!kwr+o=mn>v}kY*$up#$&3S778iiLUCSvu-%d
zO#41=iqL`gF)*-gT4cy&@cyAh)Ae@Gf(6haTUx@kP-%W!GqgcFW!b+yJBzFje6P5F
zzS??Jx7sGJ%VO0dL%RzRI`F+{DvhuQwMsVICl|PmUbBVS0y+vh-Y&RnzL!g;S;qd6
z&rES6bl`iXzqb;27|J8+Mas39ney${<_xkv@V$7;UmV>v@VIM5OJld5h2vKa=wKLB
zr_K^?>=H&==4ZS+r{fIhP~oQk@2{#cPg0ANTuP#DkrV)Qeo4<{@X)e7-w?V&TY9%i
za&sE2&w$qF-Klqzw4Ymq4Hq@?qskFF@Z;q%ex}UWYlE7Q;O%{5<68yZ2p#zGvemtp
zmg$~87?3Zhnf!!!Oajo^O}CIZ$m6tXQxy2RoSyz`e+sNmvn3ll`^PN%Gb-;7%2nU}
zszvC)`+RBE)n6`kKe-~8UBV|V*%FA*f%l2KadNPG=}9uN)Pu=&53U}0K!;Qeb)YQz
zh`%c>pt6lBi5CaZc`J-^ShoLNMtVQY(5Z@_u6Yuyv(AKN__+Dp8TSwLl%jGpoq-4)
zc;^noq(Rz*WJ5=Gw?!U%?`<?f2j01*)HSZj%yFq*O}22Iq<I(x=up09J~Mp0eex4e
za^F5z-yJ)FtPgyz;x+oP4*|h9J(ooO@yb^Ii%00d_hPk~<RLnvy*T(ldp!EM`JFnT
zv*UI>{nl3+r%U907tOw0u%STc!1q#BB&?#rd?X{8t#D{s&o&z!N7e_vSHl^9!{-?_
zkFC!vn=(~0sigxt_l~dJ+wohpV-b>bD$#x4ri;*l@8wa<zB;Kkro3Bv;i9(7s~HxA
z4ty_Rzh)uVH@(k-xh`Q0HTrUA$H4knG;8`91kBg;yDg~6eR^^&8=(W=Yc-0yZFG|~
zRaf<urcp$3qAfxPzSoa!H-i2;pMZg|%+E#4vNGI&&h|~h*Tm-ZS9-TYjenL|o?973
z)(5_q*!}N>I}h<Asja!s`K_i4mm_rGd+}rua$xR>*!(!OZ2on8_|O^9c~Dm1X~K9V
zbB$x`z1+>G-2w<5_+FLLv6s9?{P*uAk?H6DTiDniLDmPp*E1*6oyX(*&y3izqG}Vj
z(6xXLT|0H^?&PSfwc>2ACAGs9Z$L-ip7iZEvo@mTD|<;1Wj=8d2pxEzhoXD~BIg>G
zKHzx?rjh=e#6jr5`}ELS*;Q31EXvhNpUCyP-e?{M>l{yk8Paer<nh5Mit|e1{0Kzo
z!1q!X{@qAz9MxYy5aE$q_tF!M(1GuDE#dtGMcuWx?ZH9P)hN$(6reN88%n5M6cwbm
za5w1El>H~{5VAh-y@)X`VtF?Tbb3b&>Q&WsX5tY#@V)Z8bXRabUg%{^83;Kiv&X6q
z=&V&GutrPXNa8YT(wJ^>Q=vfU!1sz7pCsUKl5tuN_&W7d694n)AhJI2z0z+R6R8mx
z3JzH3#dRN*rKAHoCWBmonBbi{LK5Hf%U_C~=^}LCd-WHJi}~$0`3pZN>Ah7LK*)m7
zf$w!+UM5@JBhcrp3|Swm^^=s@Z(x1+QU0Bnvvv~hSy7b6wv+hTfX>^?7VYRbl702}
zhS_gRbCOLFI`BRb^$w3@WpOqyf4BFuBhHWGM(Du%s8uoz#rs;|>ac3u|6L=rvoe6J
z4}2clbc((oc<SgQL)D`5mvTeP5jyaB<jJP-Tc^El4#+!;-}~T~>I~=vGf>x0{L@`C
za8J>dy?QM{0HFilD`x17YnS9NZ0<1guOF&Y_WS+F`oQ<Xc1>k*kkscrd=)w7_MMfm
z7NG;5$2fnz@nV;Eq8Q8B1!=X1Re=Z{_&hnO=3d#;91nj?$#Fm2ty`A|boAo5#6D|1
zsib?7`p!^kNe~C21K%rVn2vXRHpourFPEg(2rV_X53Dna$L-FD)KYD9PJ6|Rb`4hy
zpp!RCB)oGml<9Hq_cYATOamIw35%|=i<1tx{?~93>#uu84u#Nx_vz@5MRAeLy!@M*
zb}`2;!Mm>)tWUyom&iZLTK7D{<H$Zg)Vv!H=w!@>99{Y@G#V%REJOJBUZFam^T5ZB
zY%UXzz3GKme1~j7G6g~h-X}Se{QS;6t4C!VK6^!TBtD}(V0}KiJg*&HKX3>SIIoCS
zT;NX!bTTv2^i3HwufML|{hZ7owXTcMf$#NHCU)})--ow)O*seJzIdZ72p#zKuF6m{
z5@s1)Z4~o&)&eK?@$6TyKA$6kIK*|Alb$N;lf<_%Yh?pES^dW<^vp;8QIvucR)L?$
zO%XcqK1A8E-Rx~=^FCJ>`tU8ZL~tW?;C=KqmBqbHSY$1~QKa>mObV}bgY}tu*yP45
zdLXR9^?RL(v|qmvp#$H`Ux<%1nK^NbwD&oQ+hgr}&Ild&UKfN%6wcs@8S3-*=_SUB
zoCp9qiJOtHN1H|NGzkRy1fRcFxY>oQ4}7m0G8LHtlX*+lE<w%7yFQ(@2p#xd54#Q9
zwvGSDIokDj^Q2;Dya643iLtVt%O|n7&UsVb+qR{b0Cc=jy4|}ag-Uy*<bBo7Q3m^8
z!1{!~{)$mU|4KUyxP@cY;m^{H(1G`%oQTbxr8IjTY0&FLo=I&Q2<QmNYspU9HoWP)
zwkOJeu`@#+p#wkejX5?J-|<-0AGEB+2b2kCp%6Ooz2u%GpYOfqRw~kX?NS7TkQufU
zS!cL|`#yluV%)={DtqlXn!<4dgV2HRWjOb=1mnr{k%gy)_u8Jou{uHrJ`b11krKlv
z&#%@;QZoPh_w@M`fDZ1RzOZSOgUgWhOzjiKjFdhsSf2uqforKY17v0a{n4NQ6wJi~
zI(Nf8{xy32rXc9#x<0F$hgAo3><rLj$@#sQ%MbLU4$4-4Pyjl#Tdmz8LSC1;uGZe`
zvsVb|`wZ4cnVKcFyGuOsMSW(o3isgactFP~o{QM%L!=O$(+GBTOEOs<(6J(|$6Lw|
zcW@&PPFb~0Zl?frVvesa20jcPT#MPGTiMQF?CSvQqZziK6*<8aN@ci|=A9;|5)bHf
z9J1i0P#5*vtAE@+VeDW~2XywUYh9i0z5Bp9wRE$An(!9|pmUCcV`Fb3bQSuZ*}itL
zKF`DLS;y`jXM6mO^L>%*Y8Q{tLBamAM|bsn-4`|)VfoAMxm-DAhZuwo{QIDveII^U
zVV+DAa2%q&@{i@95TOIVkJ*~~E}{6+eYyTsK2IQw(YFP3h}KB%i{Omqbw6YI_^iS0
z2REQo#WJcuaaXZ<I6k9X`dX;UN*mbm;!gWZ?(_57{fcZ?V&+F#wS@>B`0E9B-ued)
zW6nda_I$RQ!#r(ggbw`g^9x_5s7hCmQG(7NU4#z&c=b&N6q)O5wKJJV%(lyRjnD%+
zO-1~_+I@!@+xTRps(QS$M_a)<C*0mQJUf<w5e|J%$z+OAO$T(uMbNjb3(j~eyk>Eh
zpJRTb3+T{?_643O_Dn5x#rg;3xqhWb=)jMAv3)O({&v=A*IU_8Uwt<2*%q)qYcGZ+
zwx(OYHySx_OyBoy%tq+I=ds!=Y|FkmAZKwGC-_qZfs!pk2Y&u=4+ov=s<M3(czuBS
zX7jEbH=uKJ$NJ0CJx*;`qD$o^(L~iNpOE!|?{!=L{mSCK@W)RN-rkchH7hJf=)m_f
zRsCf+)BS0|XOY(<JbQ4^8PNHr<X_Djc}IE5;;ZY-^s2D{p!44N@MhHo3XAfG)D^5(
zsrfgXk@bP^<?(Z3Ui1?GcZNQ~a+R)l|8hVlOKyyN{eq+M598(X$0Mrs&VY`E#T3Q8
z!N9_wPg6*x6n^sy06Ii<?DdN^{Y=>MpYI;mUOL=t0_$UJPV<I$RWo~3|HydC^Rh%a
zLI?hON+B7R(q^aF4>^5+j`yA0MrD`F*@S}MjDMc#utvHU{JOYMO%UoSO!OXdY7x!@
zcRIdc#rB#cXCWsL(D9DAVJyh?d?iPqHNB!B*aD5vfq%c1*VO@0CBNI!ki!k=JcwF5
z<Tw}L1UV=`XTsI`tnF~BBjl_!B0CS^dp)OSy+bA`TLd{+K&S1J-GoA8Ob6r?0y@#p
z47d2NV}3&p2G9w8$TWN~@Rtp8YylnDTATfdjgd6SK?6Exqzk3PuS~vy9Bx1-%1rv`
znQ>wc<e&f@Ipe$4xWRAAAZO(x*!kl)NzUGCGBX4@SU~6fpOWbM{sJ`Q6aqS5BZ{9g
zvfsCW91NgSeCR1MD2%fQIkte#(6s~q+7&ky$Uy@-ol%%Stdeb7ki!k=7>%z<^0hr6
zfE*N{6Oy1ZG(;7W2{|hbVCT=Itiuc0PC8G>!2&wpx4+A!|50a$oI*f{kFQIqp==%x
zaxj37foIK&y#M{t9>}o;bbQi2udi2X)<X^&(4k>Ywpp3)x&k@efR3h+kt|I&uL0zs
z03D)MRr^}K)EAJm@&WApX%y$JzQx{tA9ApOj+0cL>cfeF0>~)@bovc2!tWBUcR>yY
z(3vqG&e^@>p$a*+fR1`({+<r)0xsmB0iB}UloGq^>)#-U8_>BzH;|5BwbTqbC_u+L
z(tcP@cQqGsR_ejdpR7_Pok~ImV#vV)I?=@Cv-+1`heA#vpkwxrWT;r$J_T|xfDU(w
z5yo?w(GPNL0Uhsy6s`{!51vB~8qjgY5BNqr^ZgKVxB;EB-rgDsPfTt=4hqm2jfmF~
zc1}5cu3M=CJAayT|1pry8=t=JU;!Q8DxpA`M@f&Ny$S&x8>Zpo@-J(r=Q9S-(cSOH
zKOm*CgXXaXbWB*~$5AeC{(Jobbl!FEoTc|<I)>)q26O^8$_SSwxPsp}eS0HwjOUF4
zbV?$_16alQYu8`Dt)KkKL$Fed?EHa$PNHg~kksC7?i$39M;>Or#ZidRfq$RN=%#MI
z2AR@&@wvxMvUD=b-UuD|Jg={NC>fhvC^-z3f5jd9YDxm31AqT67yj?@RVh*(s51^i
z2R=`gP-#uURyWykR-}=p4R)#dJ+jV%u%BPF#uzV!<-MkydClRn>Zx}R2k^M_I7pZi
zzFKe0*CzemJv8@q7H}^fs+~5~aNeZ-{;W5x!lilH2pw|RURJ22ue(XxOAPOpdjGXj
ztMnmsSYb|Ki%@&f_yFgQ_}xoV9X7i02>Za#!xvW=pC#7fH){XBdv0M&u+bEu1OHqr
z(6>f~mFnBlL$`{VdDAH6K!gq%Y%k?o>UVL!x*tQ=X(2*~5$2%y&Gra|6()`Yub8QD
z*w08HeBFWnJcYp`-Gq8){*M2=KUD-nj35g_2M;z+<T7V!(WsEw=a$xx+N<JZ`v~`<
zf;smE|D`e%tP5~55c*MPZoWtQ`VPO|sqH8Iw5hlpdmgQ;q5?l;P$1mvJZv5cPnoj;
z7L=Ss<$-vgQtYR65jybuM&#|D`VtE&f`>mJiSi2n44_Boz|UtQ&A>ow^~f8-YC_%f
zZwTvF5O#*oV-ifN9l~6?AS4+<Z+9@lfb=|sANQxyuH77^y+&8NVk&RQQ@uobUBLGu
zNq@=2c`jW%c><?Oh1>tJI^bUXUw>=i*Jubp4h5hSf7aKj?O{_9<RHC|!8?<N6z|O*
zjF>=9Ji_}S+*$Zbaw|}QE_Y*@XX^co9!4F|(WrH>J|}a11ac?<ox9!IXlKikddTTR
z_&NyRt9^PtHl}}{z|4KT#@rYuE*{WPtf>2X$rD?C;I%zG@iBTz9nfh`ygKuSqKN2V
zp-z#CU!RBqp##7FxZKsd<&>76ZkcX_Uy=NId$b1Ga{~Ojc<y#3!;dN;5^@Rw9Y1xJ
zFX}|AdywM|=scPpn9Cv>X8G+zYtz708;eHhz>hnYwOcX2p0iYbvck;IT}c3i(1CZ(
z!7s%a2jo$$Y44(!7#IHZy+hU+K2Nf*-Efk62`A*l13KE*OmGL2QVAhP9niV;Bx{v~
z@QEPgPyjlzKfWazcey%yP*HxpL!i*rR}I$3aQz$p%!R`PXr6dL$0IhLeNwr`1#;8@
zo$W26D<8x{%pivX&|#oC?7eIK8w)voRbYL(gFb%U7Na|77}dcZ6xFX559s9mW~OB5
zZ?JX<9J8xD!lhFObWD_c7XLE4#0hU4x+MK5bD#ipzT%<$+zbQ;Sm{!IM8aqA`YOTt
zXf;|ba=)&^x4)zv_Ow4LCmzsgj%fB(Mdh{^XLKy{w`p^#BXr>R4apTMi^eK5ii-Uk
z1PYb$(ewx%_<dt;y_aX4Acnj{rQqDqwG;f&3a~z#+pNj|!qz@lJk8)f*pFCE2Xt68
z*R3U4`wAOvtzM#fxfOK*osOSt%qfBW4d(1FdaEK#b@YJF>NTyoJ3P|~&~-6d4%SC_
z^&Gv?6WUBS?sGI%KF|2l0Ubr(qu9L0NTve$an=T_3mUqBj<%EFo?-qajgwr9_f_9z
z&(H%p_`1%ip3`SJpzD3~EwVoF^I6lD{+1`b+77>{@y4T_tgvi^4*Yy(S8P+p-f$x}
zNpB8g{k2AEiqL`2LmfzbM9MYnF#7ECHO5}T6K;eKe4bxc+tJ^dd#!zU)HrVOXJc2&
zkoAE(jnVa(a&EOo^7&V6{bwJ`76Ljycbn~4<N2NGEC-IoOl>~f0y-CTGHBgCtP!#J
zwWS%LD?PaZ9U|jh_KA$M79C#;Ssbr!POOxI^{LtHX3aHHii#+|NRG?&zpp<5bSjUo
zeQ9+#(`onT^U;siyPdXxPDxcwngZ<@m(><$skou-2sc6p{`({jRoBs*UY?<ks@W1M
zq;q{x2p#zO6Ec#kdtGH<>V-@MZ>TS$IJN|=^F{s%sWj<7I;+-~IF?jW*fD?(?bA%}
zExYm3@N0z>PL<hdXh5f)?()Eu_uH&W4Ck%8U#ZTc0G-b{=S&`r(YUj{`pkLXqM{jF
z4Ay6TqVUs1<cCz+9vg>{O`{nMpriWYhT1&GAJ&$}pO^8hU&NvjI`H>jDMBQ2S3~#I
zuAjx_yXc>BLXXgapFhm@o(t+p5h|`6#C+RFtb?O(!20ZzKhl=A<G!1<R7LfZsBJAB
z(2-^f)Hc!Ga^sQY6l1^Tt*r~_5X4Zt3zFn_t_$PVRp2#wLJ#QB(}&AWDY19lyL%_b
zQ?5{9v<R$^{J#^D-q2<uv#(TxmS0Jj(gB?xmA26jFfWoeh`5WI$LVh90y?Uj)q#FG
zv}TY)59kDMzfqLhAX_e$Xy^C+g-0-22-e5(^FWJnW^(Re9&_S`!0rG00!u{SHwu4!
zuZZLS7vVa}d(Gs6JGWv^l_{VjGoHiwjalHB)1_JOue?_-H=q+XB}}w8E}30p+0N~{
zKTo{*8f-5uHs8te{4;GaC6r}n)qW<_B6Q%_`&TnwMSqkgmj#FAE9`<nlsBMLG{YbJ
zL2i(0CX4Ib6`t@{5(pjm@$#F}x%bKJDE3Gxck#^KS!x_W2m2vx?y@JL)}gh)f*9WU
zFl+&`&hYzcTs<z@(g-b)^3L@u<I-APIzk7&*LgF!UVjb4in^@M34fGjmMNf<HpkXW
zI>2GKtSFFkNBTz=H=uLF#Fge5)2i^MzGOzsw~5Zpd}Mv#&n<rDvvCwNE(D=11V0ad
z1x)uLbl`p58L9s_%|SnEm(Qa>cYi(|(5YWd?)ZbZxlyjIr?K!S4`YhZfgkry)hpRs
z!MXf453=uH2`+3AK<L2xFfMbP|LFR{axF>5>&DM7S1AxW@IKzIRTSxac|jj^E2}V6
z5${LykR30$LoXsI_56s2o;cviqq_VzSF-_~^%$z5b6!fkS&ctZ^KvI-Yyq9;&n5!n
zGBm=CXnu^W>?j2aAavlz>+NCOrqt+c_1m%w{Sk4~#5jNs?!0s2r8%qF;eGW9Z(^I&
zzFe@*9rk{X-J|cH1sxyfMNu4Tqysvll8?!?@IB^PjQxJPM-I!F0y;c_S5$waKOa;l
zh+lY_7bnRL=y;D7@!!gk-dyc{M3ydoV7>VYSs(cET2&-<ala|O13hmvBXr=eUxOCR
zirrN;(#{@r9zsN-VSxx8_;tGKPB(l%+7z?kC#rAIOfPJT(1Fjx^U;z|l0?;`D#p}r
zhNSBo3!vki{+(X!n5{S(KiTKYIHq$p2U%zMJkrV|xV&vOMy70+b5l;(jj|Cs@Z)7w
zaq~Kt+fp5GIk9=1YA2sFLI*z2<MF@zc%A=}3fdW8-rX>76F}&|f1b;(t~|3JqVcXV
z+UhB#Q2r7Mp#z^M)0NkB{eA91KI>P^jGKT6HXB)I_<dD8OM<d@Lnq0LR_~=Bw(D;^
zLI*w%m2~?y<9l!Z?NOom-6Gl`b%YLl9^N#MF7xBt^Td~I2(vZSN9h3_tvMzak0htt
zWA|}cH(Ii2XS2Zi__h~O-yvRS2*v);9OL_#UWm|v_i1D7%YS5|uUgwC`fmAk8rBw}
z1Mjoo?7_TSEIj^sw&p^c3C)QBpi^6yS(c?ZhBIwsy%<~K<+J}1Ssy~!?{7FROSW`I
zgo)Hp@BTiZrBql!=)n8@F&E9Gd!|Uyoi^J)mVfp`A)vDwoxIoiex4t{bXs<x>93kC
zLI>U%Wn`&NIX`m6d+?}kLF7!50HAZzJj^WGp~DgPuK-hj_OGb@7sxup``CujZjx}Q
z{h}>DjOvRv_)v?`f!`0MuCc%K(BkXa?m4WX#C$HoAavlrhqf8*|2Da(%La0g&I5O9
zZ(B9$ockc&GDXf(BBl3e1>rpBVCSLqWW?iTL&D}o$!CKGO$~WS9r*c7jlb^xvA<sd
zaz+u(19uW-ORhDoxX5bjQr|r1VQYg$=)liIx}Vc${4Z`TeE<69+e_07(RhRo{QSwS
z2o|9BTMVPWS)R3X{#u<np!4jVL@W95d0G)Ztt(d4I4cx@j;@8|OsYvmd+{~0xs4kF
zQGJ<U*F^|!=5qJYvG%!}Nj2Uyg(dNTPSJGmZCMiw>9NJ0wkyXb2I_#$=L;-8OG!O@
zCX2f2bY=GR6o3v3{tIe>%596b8&^e0yfjPuo`dyqyLu+!Hd>6-_n%>+&D_$pc!Uo8
zJpAQxpQCL5SyW4r_DJH5=f=7S9r$^;yY`lc*EVh9=7wtjeZSs5dO&C67RB85^1JYQ
zEoQ2;zyre346r_Z#_!qp4aDDnVa?^QST5^KN9e$x>n#2sdv6_<)wZsUQ_=_$QX+^n
z(jXm5BPB?RAl)TMDBayDh=hdFDF`SCC@Dxch#(~(2q;p&_5IE}_H}*pT<_ssEZ5%q
z+eiPo=TrB1#xuqobB;OZE2N)1t3#6+^QHtwo^m()Iv~gcy`Sgqpz%~rJ@8q+BI{zB
zK_aAzAP;ms{C@tt9DUy=zQXhIhy!J<FhqHv*NY(UX#Rbnb}u~=v5h-6S@JXp<^$zf
z5%0`vNy6m+H2&f4ksEp7*HpyD3%af{^wDmXzU9;f>*_3mJfx88g^!tk({_zbJZX2q
zA?DjSB}D53y?%8xG+%s5K0wLDBZBkZox|J*!TLb|znuqG4!Ty!{F-2$cSDfp9Hd{3
z37c{rkDL@N88-rQx&<%QBFF=shpBrPkz$6boidPk7pG?LK11}pfR6k6c{6I)YZr_Z
zn#q)p1;)ZG5X=X<{ybHAozeeuehFi7=i4gl94aS*Jka_ajqOgUTc=qt=!GILg&R{j
zAjkuqhpw7gk7VD^Ac5=YT?BauAmb(0xoezpKe2t`XkxOkI%E~mIz!L*<9ktkR}<Y|
zeLCNi>if|6Jfb|%aUX8$Dilz=GLc}Eh_ZV#s@x61enENqKV1J(F8zd~OaSwUnO8MO
z8$ljuzsxL#Mx#hpE?&J@xaqrQ`V&zeXg=Yl!PHvG_2<BSivWW8K<8n<G1W-W=typ5
zjl;?v)t+i31bLvp3owe-TaZ1={W+wJV4m%ZV%idd>lpO=`C(fvMwgdM?(wqC-wx;O
zI1xQBpy#Pdji_(u{2W%)m5(Ex@%K^@?H9B@exaS`^=sS~Dl_^=40oeE+Y#&+bliKS
zLp_%AWCD8~U(6=gyA>eH1HCR^+Mm5#W6<t)q%Pm{SW6l&6Ty6-_brBLNh;hp8c{Wy
z-W8)mQdxHq<bl>__HwSj4yNmN=B=;P0&g!<Fd@hT&F6-c=MIiwV^>f1oqaLZCY_}e
z#IC1M9^P!?Fczy@1i>r$?!K#TZUv|0dE%z67yI$uod)AJ$)_AYW-Lz0W769|CFzZ6
zFW`RR@m03!VWv~^bbi}=)J%w}Z;($gsqBeHzm$Bs`m_sI37}5S848dcx?{+tY!{r8
z$LwjM3nzy#b=0r{&qF^MB#Tq>j75DqgJa9arKE2nBNt@O#dJ!ZT1Fy~swdNJ#A+i{
z97<W%OG&4z&vcjRl?_(6B)K;XrDh>(a|Ng5sf@#552C?y=!w;N?dsn%WN}I!WTJQO
z#Pm9!a^{8`*ko<+nNG>0FC*B;gYFp6Kl9mCItx8zDG{;yK-blQAdA@}0<GQjjP6(L
z_ofAF5#)iMr?;itTu?6)zF{-ev#xY}_T251JRd{fehY|vv@_|zep^&`eqP{|Jef&3
z3`9$d?M6~~fh`aGNq;0DRv&1;I4N`@gWA8xH<9FFR)1dCu017>7sg9F@-pjqk=Rmf
z{<u%C+)l~!EKPO$3%mF`!JTs9QTfSafm8B?M7O`^eUPRc)BE<U<ZVHQAMuFQ2YUSy
zy*qS^r^5UK&*wKYRMmBgeW&E1-+Yc!$imL9Z%L26IKfm?fFKWaymUrf+e4G(1e(v@
z!#d;;ov=71PbuB|O;uV$Dy{R#!Ys-(HB6`Enb>}alEsKAqfR7(uQc`*V<`@?Iz#)V
z#ADZZG!e1MG0dgMYw;<s;FLV|eyMj=8%uc@h_(H`>m^QGoRTL;yp;IklWlyN<k0vb
z2g|Qar{uAAZ(b2We;R$MRo_TWK#^@J_H^~3pp0G^`-XZv*@YrVye!&Za7rE<ZYy+Q
zbeT6LRQ44ni>m<^r{vMN+P0phb(WmoowtIdbIY6Qlsuij19}@FnFmUJ_swhsrBIh*
zPFEjVW=ZK<@y^m$ChHO2sUPPHPRUdF@^Suq6zyv4@YRVQR8u_`r{pOfAZK(Zq_h25
zApCieswkD|lswIAe2&wx-Zx&XWVwrp5k@UVpRPVvSe*T_NUP@NDy3Bp7MNTMPRS$N
zuwp1;CmOWdDCzEb)U#)CN*?33+J#2imyfL+a<;l|+{a)#B@e#ekh`CmWx9iC<L2F6
zlQ&CIr>oC7dhswM0SXCRNkxxuFRMNloRY_vz~ouKIuT|(QJ?X%2OOU*PRSEk-L<MX
z%H1mMRGi-J9@N2fN}luMXO$)FnRAE-EZ>QSWDYGwo~}O1rozs>&l5VBu<bSyQkiB8
zPRXOQ5cp6loHK>M`idd@Ym7LHQ}WzK&Pcu*J^m%x`(A09;8{hcQ}R$e{H8Z>C(U7e
zv5T3O;y`XG;&k=FqmaDDo*~AowOMtXIZ4k}a7vy|$^eZ^CNjNGaM>pB-O=Z>I3*9a
z>A~?eYuo0fXXmB1y<fU8os!3+LMr)5ku|D%i$^qHT7lV8`0487VfRsFvV0)vDpr1P
zxTnin!6|vhLs_;j=wb4km3|pYI&TzgfglfbUvQ<h(xU^PWk~(yF@5^yA4CEO@<8uf
z#4df`t#M1wVv?X@QTR-V_9N_c_2~|_j=Q9Z^60D5hW4ugo1ofL@@!F9J{^l)6Yn7s
zBvSk!g6wumo{Y*^6(aGsU5a<<4s;e83k6QeBld(WT%OT>+=P652VX7g$&b*})rUA&
z(9Tlm{S9}ySj!N-;<(yV^5~O)Q~Y@DMZ@%(BYDt6%vCo8d7#gc2%Yv(E)~VQfag&X
z2=YMp7ZlumVf@sS2lJQB))(#0>XISI1D%IyG#X>CHJ$2<M#?fZ6LlVrhMca>*IP0k
zEc&mEH|ag6bBQjhNI{SX+Amu5U?oDwt770en*)M8&^nhrrN5E+aJTN6mj`nDIVMX1
z1bLwKVPSt}%O1Thuz&7ndPo5E%#YyH)#p<OJ<H>~g0R7l47)Z~<%+eZ<SA+j>kbl%
zEn8`uF57yk-s6TK546ttk?0Odk;PAAE*M#zKjQnQiXacPK4V_zbx7r^RPGyi6Anz%
zIuo3d$D#WhKZCwhRFdN$qsThVd|wb^b%s8F9-7DQz%`wZ8n|jm=xV1kfG7{NUzuMf
zZ@j&gMMCR^`*Y_p(r^rd`9OKZWp0)B4&@Gq*pv*mho?!Xo{}f8b(jZhW4#SLHzqhG
zkLLai>8z4{TVZu4y>P`vyuLuh>J06dJP#*rfZ?P3wf09goyda2F{k8-jP%W>a7fX?
zx5&c@YX9J+dP<%QizwHstmAB+swc&X6?e}PoRWv>Oa*$yjSktOL-*eF9L=%5fYa4S
z@p<d(eoZOn4&5_P(l>3yVou59giJGa^U%<-{87C$c1cjG>M40XJm_OcTcx9;OnH5_
z@o~Bc!6|vXk{Db#14zs%R^;>;)gFcQ`6E^zY{>i5;4yiW`~Lm9B?He_>SqWwM-k+K
z&ciqgB;8|w)il(wa_n2ENq#A(<jD%DZg~(Qk$QUvwek}6#-=ucJka|?Hx`bz?&UWO
z-T`xZSrT!1ObGHo`(+nZSGGPi#t7c;Ecqc;XXyJ%rcJ}DeD5~}pP46o^k!*)^dZOt
z%_mP_;p3n*54+fS_?>R`#)udMd7#&2atZs!qPKM}JESPro(XlkYoC$_`W*&jdLco_
z1u8@R;mOcC03N6wUOYTKF3g|{L%<9C;q?!^9|!TkpA2>Y^fbT#(F0y+dk}YoMR+_w
z4-iTSPY?BjCxdu^zz>WIJOqC55Zot$d3zFqb^sq#2Jzs$1TydkGC<%55cvIBgpM<i
z0S}M?LhA_p00KKes2(Z<KOC3=$iVMcAvhlZA5;eY19pIj<^#qBQGdXXD1!49>Q4hx
zAlfd-6Uqbh@OXg!BtIzcZ~1oxepldk1%6lH-=hLx9sl>p=64pqEAYDl|5F8ipRfN@
zb$;7^SKxOA{uveUIb|c@ISB|qNd|rZ1;7Ce>0k)<p%C*wM5rCw?mrw)IDq$D0G=Km
z9mogz_bh-O#DV7$@Ya3k??XVppnq=z@BxIj1N46vvYkK-ekTPG>i$>rg+5<{^8Z=+
zq<nxKpd73Lh7%eBc>+Aa{ckg$w*7y0+}~CJ2=Slo7dT%LjRWT`m@km#|C@*?FEsG9
zaZsLrwXE`s5&+|LS~@Uph{pfB)*s9}@Vi%#C(wibf%O?&?+~pYcrQT>h)zJzZq*5X
zzzp&N?Ew96JY5Aq{Q-je5GaEA4-m{7fFK?qJU?ibV1Av1AP)FJWuQkC!F)dH{S)v5
z2-^KuA(;07!F?e>XkI`MelHLHzXUM8(DzGV`~VO5J7WNW{(lRCdH@uMbsQk5Bd7<^
z0~w$g>;O7HfgK=t-w$Lcf^i23wg0=w(0;;`!FdJx1LR-b570h5USJ0Z&+k7~53Z{x
z^$)tPgL=UmH|V-?()>QD{eKrbIPXEf!TJEMhoCM{L^OY}ZbR2+5U&S2K(wA94-o&W
z5PV+?>Hy{uxUNFmp@%A9at$2)c{ut%tA^KqczQ(n!T11##)0_&)t^=d&wBuZ^AX^m
z<ps~B0D^G?coHAzAHb9Rp?2tb1GR(s4G?NSNe1&0;7R^aJDAV##uw@j>Il`tn`iL!
z(0Cw&dI9+)gqIJZ<9ibSpS6R1C!%ri@`qP9a2_B!-r&9r(R_ZDA2@#z<vXcApx;nF
z@Le@@Kh6ww{EKoi?1BZb51cp<ULIJYM6d}6Zye$3;hX^A`N37lLL|WQUkPl$;@Dw!
zeVD8a%kLfRg5D34@51tHhv@;@!1MsQU>86|SR6n^*9%zKKLF$p&QBefg%^e#kp7v#
z^mZ`31496aj{iI?U<iiL`2lGb3C=JeLH$4;|LF*CzW%HFecEw=_5-@^KxJtE;I#`+
z4~_q`GL#qIyhM~2#KS`<5AcKPPm;lX^GSYxw;g)j0Q+!I*OSKk@6Hb%|4Dg)^%5FS
z3{wDv+E0?fz7KjI17uJ)XkDT5N$o)G(DM>%|1JN&Spn#G4u5wq!1)c@0rM5ezwtk#
z0?=^=>&LHJhX5aF2gsm$P#Ne?i+~S`h|XUS2W=mo9{2$}K%hS@LZ648mIu)|MDs?}
z59~`o`_MS34E+8sgg5?RUV{0K=zZEhJO9607tlX&KMCpq?vFr!z;+zyq2mZI4=`Wh
zJ+}qV<={QPg~yAiJ{jf+5Ih$Lh$s&{KX5;XXg%QZ{MP@j!2gB{fc4~mLtp<l_3=Mt
zT>n%0@xN*A{qF1U3jD6XudM)hz6pE%g=CB%{hxh*<qYFJ?ftV3*ucQa?<6}212o{h
zDx&*65dW(Yx(@^VKo1b;LH<C7cO4S~4lo4!T!<QB5ni1@`{4N`XcwM8@PpSdG*2Ld
z{TIAAczS64c;Pwzi}fH+fFK>P4+jY9a1Z7HzV8D5e-;5RJUlHQhy(k6AfFab>L-|Q
z7f;*3e^?y6?~DJ#y7{NO18*LI^9tafCO&0=_MeOc*If{H()S~PAD{^=5Fp@z+QEBD
zV28>;e;0ND5a^>}ACwfs&;(Z4pRfy<0L&5C9bo!8m>%Q<uU*g%JOtMzcy_2By8Zz>
zxL*Nwpg##u+dkk0?E)Sk13S=z`5Ffd|K<qt{x?q(;q*X%polQRZ^z#i_!m|H%-fSv
z0P8XE194zo1iu>tc7Tsz2Vk87dVtWsrwjD(5ZoVw`#tbJ3;4q>BS8Ge_lF?Qe;8l~
zV1EJC1DP9k0NN3T#DV>UEKCpm4jI@3VRj&c?=VGRdP^9B?~H+;6ig55Eeeyt^#Gbb
zIm`~?p$PU3f-pZ256}gszX3x4pzgpA<OyVu52zQkU2q*YgR~3vvx3<{Jpn(|599;h
zR~p0OfL|D-9grWeyTR<)kT_t6qAJV}0LTj<m|vhBAOoHpSRn9+@__pxU<dsI;{<rX
z`~rTk+bg82FhT_wYQPZW0onry#tF!`U<c6i2iTdx0Suw*0T^H4Mhp&MXbh3TeJnt5
z9}5tSFC^?wi;^cqfI36nK%GH7!1)Id_=9x_$RG~P1E7b8(7J(m&<<!H#Dnt=$nX$6
z--0*(APzb%Ko8~{kl`W76WF0L&;tbh12Q}W;{v`b0DdR&1HY3HIzNFwn0KIkAOkx<
z7H|MVFi!CNA@2XNBIrLrXh-3l7hs;kivxBjACTeM;mtRA?Et>N8{y@9QoCTDo#cn8
zoen|Ae|Ei~>ncd|ujT=+m+<&OJAW3zc>b#O>Cd+Rcl#q+FGT&!VFM`!LwMr~>Ur9E
zPXj9qblq8l>7n;AS+EOED9jGc6XXjsBSpXt!2J<uCji!=n=m^MOa=(z;UVZRK;Q@V
zQJ~K5FkTr*JBVJt0q<}8uL^+cKBxz{9|ba^2=2cCf;f2d9N14nEQkYGcOdHjCW83_
zHJp^sNp^UA<gf;z@jwRi8hSoKWhnozmcjW75FS4v%mC^L5T5_9(nFt*fb|ACufRG9
z^k7~9J;(>lXMjNe&q8?Zo>YI3ALt*nU%(De5A0Bc<^#@ucsyw^0_eCvd4J3QcLkzh
zCq4~K4W0|a+lT$%(SN@Lo~r@;`&;}qEkNffSYQ7t`>*2pt9ksh<2hjsLZ6SFHV-aX
zAlP>R9x!ekK=C&t=+{ZjAnJG0^^XtI5V#&e)W605M=AjCd;t3%&<*IkfXcw{Bn0h&
zeGRx@gvNpAI{=|}AfGl55D!Jr9u$Ee&;uDDxPJliKMO(s0sh%`PaAhqJJ9E-P#GG}
z1XcVZ`OjYO!2JA0&Hu;H(81{mcwYs_{EzpvP&;&7pfc1S$S3)o_Id=}FM##{BFfte
z3jloJegM&U&_95neRzl{FT8l5KdC)<>okb}RS4<@+Jm>Q0y}8;SFK|w)d92zz3&5h
zfYASM3+SN;Z4W9#{h{)&8h<G7Niy{L>Ph~<4$cdB?>pgLU%~eeh>r6~>$n6gp_A%u
z1rk32Pg(~-IK2J=JEA<sAm9Xqws%s0FTnV~IKiVwG*4(e$OoL~;QR*j7$9gL_(6Gq
z4Eh7&00KLrc|!9-G!C=_@&E|*Cq4g?hB<<Mf_Q*{2jmB2MDe8d5$)$m=M(r23iJbB
ze$e(nKLLU`kT(TP0p<g+LlOMH=D-i|0R;Y_eefL;(8EKp?kK=>faw7*a8m^bCm=Kq
zd>3>=7?ROR4lq0T{s=*Lq?6i*<_nLP3}yiHAq<`)Ophopm>2Nqpyxl-4}6yg)dLyP
zJfQ7B=NaIGB6xoX;sF9b8`uF<59|QJbr2xXufq<&x(d!8I^Y09@V*hE{)Y(i{D%T^
z0PJ900tnoszyTZt@o>yYC)uIz%b+~qdq=1qDxcKONp|Rbx&dwA7t1H*bCUg}x||e$
zl06&NUobBLf-->b8NvL9p3joN@dSi-{|LfBo}e9oz<$#De^Pt`j0l`(fcNi4kQcmm
z%-|Uy`g;%=o_JDwAnqhTU<dO7x_<&P*w+CB{Lu9U=%EPOf$D+$SM7l3SEC|~5Fog2
zLf27X|JCjPyYT(h{(*S{5Yc{t^#m8efIrKRAnk9r|Bwp6yB~z=p)%+`R1ekzfWQxm
zVBG`=wF4Pkw*UhDe=34{0Q{@{1lKWuf0gf7$3yRT06#oEu>Z#275IO-0?>66^aY+C
z*#B7wZ~cL%|7YcO+IEZ~fj~Z~-rcY`u>b3V$^UBXgyjLn4wxQ_?J)gm@f|E4U^7hq
zXCbV)-|)Kvzbo*&0{?3(0QUa?ufr;V@fRxs{+^R1>;gXwxzOJS558dSfcGXRy@!Fu
ztq}jui2`2WB?k^*cv5>1_fv}?4*?hh9_&Uz7qT&dzMla5EMb^GxNiW70ABF_Rh;(u
z42T2i00iH?Qo<Sp-~WR5D~LWf0{I%j4p?Cb`UBoS$pA+fg7E_Vgd)gu59SXqAL#RU
zNHhOUgw6|BSp5NhgvsE${{ol{5K6cXng38bkcD6`cmOg30}R1=1=LU(=rLgj)-bdI
z1{gwl;mLMj0z%?}$OY>+^!Fpakp3ovfr178vws%_@;wPbnz@km35=f)tiRCy0bZCH
zsTvj!<SLj9{*E1J2Ox+C2wexDdU$r=hbThd3xNDUJk)LiGibrk4mh5GVBd3s+i&yl
z3jD6X?+W~`!0!tDuE6gK{I0;CtN_@bz}tuXNxD<J`+$udi~;OtPEGi45(wQVf&CZI
zgMAi|0fK!L*e9vMZs5^j8{Z&;|LWism_F|>_8088&cOCz|LXk~be{v=SNy8|%wH_q
zKf?d)e#HQ6^k57lu(}KVyLIdzJ^VEXWl}v@ZsQ9&6E0~&1a}sruSmQS2||0)KP*-!
zU>ldL!=0pVWGB7FW?&#cd)vsrY*W7e=XJDe;}2_Ocv{HprjCl<>Gmxq7j=|uV34ZJ
z??>V=+?Elz#GK=4$B&$4Em)KPiA$+Cpg%NaWYKCkSx|wxzqeO>13C2*^OL-UYjO>|
zcH9)I(UkG-6X7j%ndzN^E|fyoE~vEQE68Bt&0$48pnKdm=x8(O<2}oy88PtGd+dp5
z8TzeE2F>f3HJD+6<+}WmR-^4_nsKN*talE`s%z#)F+yW>DZP}9mH7o~&YZtPXE|{$
z+4_yQKwzzG@rDyc%^gR_Y)kEzM~)NyepD|6>Gsym@C+mQC+bxSVihk(t6=3{*2)T5
zQ#eemCEb16*`&;nNq?rB`Y!tvvB6tIxpW);g_Zbl*8NS(Bf*AxjIMBXmPGk95qdFm
zTR{d9<y<wZyVB0h<h<KxY2H=H?PP5Oh7!IqmxZoBX1%}Io|Y(0WqA%al%JX3O7jOg
zw}Fv3iZ~&wEL~q}6Z0nxhS~1M=Zcn_&R8U&<T6n_+gLd{Ry^(s@|gP}yUq>GNQ1Td
z;$vqqD9y`U9wYNr8nb6!7mpk0bluX^OZaZt#3T6_udv=G{=G>bHrZX0JRzi*`TT2F
zqO+WC5NUO$Om>nVO&)(|J^a~mpS`tCzJIhU@!fie%;ZhRTfs=f^mlm&JEsyvg6B5c
zLg@T@*20a;1EdyI@i83Sa1{g@-n<a%?482+7I?sKIj7<yPtbbt;#(Xc?lre^ai6es
z@_RPn{ESiKrMonm%PF>+rT%xbzPg`r$iHyhqHQwaP3vKZGL<Hzl`r+mrBc4~-CQ-d
z$j&3oiyaB}Ialee_&Yf(tH$E(Uv5d;-c5Y>oz6IS(D8nh5TkZzN!X2vAhseFKGYI@
zo_RUU&I<)4#zE2BoMxYmh|#IkTTA^Fd&qaX?FR?MW5^8$iEnQE7011*oMl2yB3E#G
zq}g{ggWE2-x6$cQ8s1(Ma_6QFo7IA?hDv;*hvd)`N)EC9^5U2Ad(_vR)(WUQN++pS
z4M#-k?h1WvGm4U&ez~PX7?XQpHRf50W>J4twzI_2y-v3acHBB=`Pr?=+l_R++8Uo_
zBySWh4o|GqX=rw^UQ1({$Q={MqjC@16I;J@ndpb6nyC2t%lcUH$!FEmTDKPIxAXFZ
zFJH<VB5Jx@{1AC!-`QyKdho1b{Oo?7bgJu<C;JCEby`-nOWIXG9KtD_uZf)P_RcL>
zXy1HHR#L=;`urPKcanLvaWvj2&Rodcjr$tLRF6u{b5a@Y_Kqa5t!MlPZZ=4GcqTYK
zbjG(MHS^stO-qu+YmAdFyeN}Y#Hak+NNW&(UpLK!4~0iEE=4r1wl3gv;gb{<uej2?
z_#Yd~F;<@_9Zy!@9Ny-LZ;Oq*-S`HDeD$IMU5aFmjFPP}65kEirTDx`bldPSZq1`Q
z19hHDlf?I)?|c|=(YzP7yO{o*e<g9MK~QOTuCH8vdB#QULEUEiq$TU?I@1DulD;WR
zmJ4eb6bjlEiKXm2j}8u1IO{&se4C)0(m!<hmi)-G<dFR*+SQjIt~Gt9LJQF9rNNP>
z7?OxwVl&l~KA7-hD80|fZeH_R^B@fS0EJ}v9(g%>6pGvUW7Qrte@=pnGwn!O+nCiX
z<wn(<MjXN+A427>$J4Y-u*%y~;fLv66&~BLCtZ(|-pW`C+$t5KbCTD0A*cCXH&px-
zdnG&J%|nui%Zss_jHCF<mvI?6AK7#gNBMbIps+nmnRS_^qGC)p<?TuMup}wa(*91B
zkV<g&+yHrluDN9`+q%86gGR5Tx}5ap_^ko&fg@jO9@MgxCbxl=#wCN>aiw(aLU-_U
z+z84t&Xp&>PsH)hbe+a%Yfvz^$NpME^5}gv5*tgWhK*?9*DDW3U7k*x%qCt}GvIxM
zwLX(#?o$?Zr)X(~TR+H0^|G`jk055Q|Denb-NCNjyJUX1QpE4`{=8p`FD1oHxr}nl
zZ9E)*%W0SO8>=Jx)o<+lSHhUK6gY4r`FWLD*_hcB*rIxs6xloZdD+>S6_mOoIh1?k
zmDsO+q7X=Z%kx&<PPzP=$WR3L(~O%A@k~4zNTl=ufuZQF$Zq4gF;m!n5(F~Kk$TcO
zUE2zm%N677f|T+J25r2<rp4|g()y{{yP%uBPmK;N-uS_9ATX&rg%zIa`btJ3BAz(z
zQm`Mx7bC}Ru5(iMtR|+Rij_(!%@*m_oI?@}lros-nHdC4F?Xasqm(5`+mn+RVOluP
za^+kYxHSJ_6!k|56YUZHW?->DiA$rA8^Kx<#><)7yI*B3H4_|pQFopn^&FSq_-vKc
zsOqgp|8RNZ%STpx%hKYs@(H=|`Wg(CZx1dQbYDn0<2K%y^g(lulOU+~RV=eSPO_hA
zap46i0oLhxldjCf8fJNxpSx*K9kq~iNxm{D4Rm{W^K>XKF;R%@Jmm<E-(05J_oVue
z<k4~HhlMpQfp=>phb#lfS8^)g!AdC!;fuLBFTtz=J`N3LiT;Q-zvIle6GIZVLUc4}
zq~o{4<NBP>bs9>WHg8=pdrPZBFV69CO9Wem`Fh~2<HDe%MK@{83={Gd%H|JrOB?}&
zrrP@Ar5NLHule3-u%b}f%D&YarHz&+a5H8v*6!!tO|mCHTcbrfHUsV6tjApRpS>Y>
zN%JVuQ=l{R1<w_ejmM4^)_kv}1E0zcX1zw+xVr3GVRe`~p-kOt)xy)7JBPv=vm!O{
z+9<zTpv%l<cy2gl_UK01{qvt_5)-c6C_(yYf?k*H)V$6!MJ_tN9jqHmzFz-fSVUbo
z*-#wqD%TJ0oE(AboAH-jwMS6wzX^tJk&E1Z@UVOBe9|#nG_HM`5x2>Tp~{iW@O6#h
z3N`(2YYYUBaeJz)c?vtN_}uO(zsSgDVHH!F@^w#}p6W}|3k%V3FqO%E(V<~)HRDBC
zf=(@`)06Fh**0}iG^XTx?tIL6UQcqaX5@it=<q$ILel(#2g@!LnB#iUjnYb1VY=dN
ztMv_%lzze!P4)cy+vS8+!qr~%`Qu%xjWllI8p5A-V*UJRzx-Thzt4&~-V~^h`Q+%E
zIyt*?@5_PuA!!$$EP>A`Us2=ne@yb`<y%I)`rO1oXV1u-(wv_74Ez1$Kx6&42#O;L
z9Sko`j+$G@!M1DRQ$JJ)^F=WFD~s2JiNypu^+?;v512QUdJPX+jOU7$mU5mFCI#KV
zPl_5O2pG9W*)bu5o~6%B(reS?r$ZZ_(0Fi$YJfL<xdplFoZEPH`W@G7xj!c7QO?cg
z=q?XIF5!+2v+ngTlMW%-msn`37{&}<``xt6di3B%U5A?)O6i8={XhQkydP-!d35a#
z{o4GdyW8f(;bN)pfPxrmm)7*$wL4d-tjqQWE!y;XU1c*qv5+u&3oPH4@8Y^+CEWPr
zh}U6=W%p${|JFe@srMaA4ZShXpFa=RC!e@=8n}%GzV0t9Ix-(w>j`@7J~!H>QP7Zq
zO-1s)fyVuT>U<<+q!-!4G<)7roz=4~hAv|t(UV8sFDq!SVLx7MrF@&ARVe3L7V^3J
z_A;LFh?XKbh1~qxP-;c~?`7#6M`^vb@05?5E2%4=j4gIPyq`0QKlsNDnsDPpPw>{<
zEQ?Fxi^hJF7p*OtynCO&ia4k1KYy?hHOI-*e>pN`BlUZ~BgIUA{n4$GE!q503)M%(
z&qzm&H%$3@URAG}7`$1>Al-C+*!E@a=hn>3hHLnf-YC9t-1cFUtS_tEaoYpRnaEfd
z@N6aWE&IuPTAGY0$BtflCLVT+RZ4}K=?d~3B2^6deQ_xJP@<bs=%Q>*Jz`^g-Yg<8
zrpC;0SV*w?VAkkCC6~QkOqD2QrTHRS@RL}KRBPkUqfC~rREn|7QNzah+qSzs7j-IG
zp7H;X7foX>c|&uPG1r+CJ50|O39SVu1=E#Q&{Z+_95I@P-BPePq0k$iS+Z`Q3occq
zT%Wtf_qPVE1%e{nuNzlPE*idlB+MtUsl<6(#ILH9nc>|gJu$09)vU-S_S9>}8|TEN
zx(RbJs1=_tD_qt#ESsjG7Ijy4L+uLczfUwUh}%75=1`SSKL3o3sblf3;F}y7;YT^C
z!qru5zU$51jXp)yfo(rfs3k4$`KO~<RD71mVLRjI)q)d5Kz$wEt}2xPr#6Q+#g_5S
zKzh;j5E}8vikKG!Zd{ps9{a&A$uIx1cFWtC9BhlKH0^l?{m8O@nsXx5AFcSB)vpb6
z1|BfQQlnlSk0w+UPt6Li+hB+(B*{3ZxMZQi>VfW;jAPx5d#fX|rs{3Wy5LvIqHXtg
z<}@Gf%~SP`_G0b2iG9`P+01VAm<vtVz23>I)H9LyV%~K_HoV~b(%VkgMgFdyL}BDK
zj;57qbs;K=;1TWoga<x^^<!-3Smg!l*VO3p(vm$S6Is<e-;rG9<<C0sy!cAuYKiaS
zn>+DpE+ysf;>JT;G|=|yd}BpxahTHh_B~8&$L=n-FkHN|gPr;#O39Eil#xS1ehQ_z
zO;16+-LAab{vwO>=huNxx_2{?k!*c>_DOOAYVKh$aH`+-dBEcORh=tBX1w!BS%hIj
zAGi3A)(3NSs~DQB8hDE1J)*ch1f5mgs4=KyQ+U`DmksisFH6XaWGQz)Mp7^f=}Jjj
zO6Z=s%Sk!XlhDrLj8dTAt)}+6+1X6jSdHSKXQe`|qsn+{enZ=uFVLp`<sOO%>Cql8
zHf4>Yr@(hirL@_M`_ersi<MkzoIJf=s<UN1Qwk1M&#-m_?ggLqW#m1RcKacTn`^}$
zOQIh?_9L;{Qr8$i{{6IBGt(jC>`%y(MK)`Reedr$p}VYWU%N(`c4I-R{!-7GTF(xg
zv$`A-49#IYa<|k_T=%uhuL+06oF!RpC0bxjVhUC8IHMt5RCz67kRrzD@o-jv*pKT;
zbSp=wT^jP3RTP;a<<C??tC|wSvc{C<%T@;)e4dHeZg#1A-ls2ADZXJ6@O1^vFY!KG
zTwKJ%!svvkZXw_P>$>(0%V}zJ7`ICT?_yuYaih<vvSz{+GTAB`=gz!~9Iv<|6he6I
zo~bFbO2{b5My4sgnZ#rj54Jy^i0RI!udAjn4u3S3Go-!len#`I1%Fjt-Dm6oN!W^{
zowmyhRn4o7;p~pUXNj+xwneHG$Yw27<=5q<QUWX|{Np5o?k?0|&}VZ}=P99F&-R=~
zuARvld}~1Y@ROZ5a+-_*<ps~+NcFL$)pXKZS=IT-t6zOBm#5H*{9k9gSzvah-0$uB
zQfT@tcBMjofg*!J@y^%WCwiOg{)56!cd3TBDT*(q4S#G3#nQwNNL)SYx_jqV<Jv0@
zDFUMhq9y0*O>i=dR-dnE985i;aL9eZ#j8HT*G_exjJGk3V!P_9f8KB@kr~(ZS56Dc
zSTPgWv1<-zJ}*yoN>*|U<SSfVxgA?5l(zN!Ys|W~T0RXAwzjHn&k>RT?r1oFD@Ek$
zm)>gx#oIUAdID`_?c3YG)bSD9Sw6K&(%bdOVl!1z4+>}RivE7jv{v6r+v2=aGtMyg
zz7=1JL!*!B`bW3Oh=HZ<A-VM{K{8gY264%}=8CN{ca`E+n>%76d&6x=$tg;>s7E%h
z=@S)ly<}*A^2bWCwSrk@+ah!M^JXYXG+kPXy9CkgRkn6FrIn9~>}$OGL}H~|ITskr
zh$6<a7A_lKExt5nJ`f{ggPs0~S+Ln~j_=I9(VI^4GGD5rq?Zgo57#zs)g@m1$nX2G
z4P~v5Hqr2#HPajH+=^a~H?^A!s2YLOpA#J)6dFpHMUvtTQcixJ;j2|FnvU_SwjsJ1
zWTPpmQSP2VQAU1Vr~dr&&|%z6jaP!qEqsf!LK;X*h8utEJG7mUG{@GTcXwo?4B0Uv
zW0sT($>NlpLARNq;6=V2@^-F+#7h;YysGm<$eGzkat7pSwP)lq6EAqj8RGOtt*L&o
zn7!^*V7aDCR6($!o{(M=#}#gcRbBP|Lx{9Q0m&jS(F@F3&3m^LWo+GDtoAEpTWZi0
zj^a9cT5Xxhvl-26Qn1!<;jJq)aCW4|v|(1njYOHc#9^E0qN0x(^}WhE?-FWKRWW=6
z%O~c6zhuzOp@8xqY<vmWtnRLBw}>PI6B=?$@3mu=Skby2Q1N-O`WV>FbhX-_`FeSJ
zIT=}R1g-2VJ)fU74b^!CE~0mQeY`?K#7v*QM|~C62)RQ>`iHX8HS=6H^>BjVUcvW+
z>yCxT{?R3>k*Q6d!-n&<X8q|N*l+Qy&mNSXWqm+j$+smg^nl54bO|~0{2%u-cP3oM
z|NqBLR_w?Z>lmKWDXI5g_1xs9X~G(nx{5WwieGc7MuNf`=b%3^uX;YU(VUmx_t5Rw
z%ayvuzi{@W<><lU!QR-5uIAywvYxP+;NrMD%j;eho$1Br-=~ZzlWon43qN50VKx)o
z8EnlOj8Vcr!KQZOJhMiQ0oQ&D-r|u^RVt71<i*XYiv2SW$8q$h$`?X5Us8@{RGP#e
zqJ%AWu`()B&#<Y!_(cD`P<zIutEkcW(t@xy-uvlcc5`1U?pMyDjN9%9?K4ZM3ih{M
zDN0+$Y0C=jt;J0u`(8*MC%QLZzVv9Pc(I~w{zavBrS|epmUzSyg(vp+zkK6o(HZGB
zo}`*7r$Ucscv76)je|4A^H$#&V*zD{#I=$0+AE`x>;>H;26vwa%pEQr`dp4f>7^G(
zhg5dmY+ZDFkHzegUuS&j99=BBy4&dbwnZU&zw3vu)l6EM(hKgXL)yyVgm9kE8t-ss
zjJb#?v52~qUfueVbg*b8e8h94V;+n}S#17DI3d5QY&`U0h*zi1AzIv{JJB?j!r^U#
zDcUcmpJu4uZGTbj7WKF`aYgdL{NS6Re0ZN~Xye)w6~(@=^J{w^v-_-x8E?BZj9(}%
z35Bmu*!ebiDjPJOd;Rl4_1!uSgMNM9;bVvTPJ_y#(wHAgrFE}^s&5X>%(IL?6_<7`
z@HJ{3cJEN){#-pHyR5Ur_TFkKoFuKuC$K;jPqfs8E}{RACp1lGZ~U>MvK?%)vgl*b
zy-lX4O>@3v^re?D1XI+L3vEL7X>Cx7#EmSOBXqR+4kyCbQ6c@oNafG5(t@qUw({*b
zgEQ;S6dbU{GCAaN3e8+{c9vHA#EazklgHJur4EDNJ<89>IsOug>eVlAYwGTz?a{VI
zCV5Sowq@N%IUM^qf+^~u_v34-k6jNPahl(SdZ)LOujd)^&*m!xQLAzA1m|MDbGj8K
zIBzV+JQ%fbhEtaL@y>#dkHSQ8vxqYh{`^;eqBl)N64x$L*`o_{o<&lRay3-1Q6D9n
zW|oTXmaQ>5`{mB`rtKTPV63uhFZM{bb_5#cuM(2-ILO!_*QKcR&ERj=ej#$=Ou$vZ
zP=9XR{Dg$EtLe^5L!YHWv<qEZ7TsU;*dxp2R3*i#*?o;Mx?M?#nNh1z9({U_w>`(}
zukmeKH|Gm_340brs2};q&JgM$rCj1T&24&7<&mC%!YeUhnL&lBn3~cSt}J01j*P-&
zYs{`@=Q1?ws1F-o99zF-BdNbhuPvx=#&`#V?8!qm{+@-NzL%Zn*s<jC?iI1dxT-8F
zs14ZJgvxik4`&Lm<MX`K8qlK{@bWxa=Ho%GMqWYJ8utg!S|Y<|ue9-2nF>VNF*8$S
z5?f;RDTbMyZE&>9n<3cm^hB$-zAjpxPVs^}!t%Oj`J{sX6$+abV=s>|)lB|tuM?Q{
zQ?jOCURklc%F;C5kDp9PWQp!8EXh-ugj}bWqQ@4Zw@1%FUavd;g-`*PxKej%`EieK
zPwmjFD=(tL2vC~G3AWwOm$tsL^%K3B5^p#oBYSr%#y+RrypY4J-IYDU<8w9IsIZR#
zbFS9{hVHF(iS5p6cly^t1h1XDa=DZ4SLwL48!(66Z!%`((YPy9X2*pV-sy|d{F0%m
z5KkY=gVgnk$)+y4yB6gZZ(P2_hF_++{wVIY{<%!Xcj-tERAvh4<U7`9-e$@!Uu*5J
za;9&5;3lD1&1Ujt#kXVWYlFwnpA~un4RKBW){{S&b8cljMN*27eT{8)D#ll->9#_D
z-xG+Zk%CD`^YWU~PK$5-Fu$9PJXv(y8UE3+(vjHsn;+3bF`^eQcVm9wpy`UZ(Tqa=
zv$j#q<*C&3=u5dDJ|r{`js!E?a-}po-IiEpWRb;Mn#|_&vDwp}(6%pk(&!3HkgDaQ
zMHzBRI`{D*@>`;j$}?`SjKjJZtJSP$@Tz29^qJ~X5}&)mkmKPujXsNI!aXF!`6g&K
zl`suCKxtar2RFGMW%NQXEq1{qxkbc$ikh)2Sz2{an(2dj4hj2Bx7^GZ4?VAjk2qA-
zc|?<14&kb2--`|&oTsbBjinX}Nq4$(+$2{d$(H-ZYnGgr&xw6t1a*a3&`DKg&nMW2
zcwOPX=<ES4#)Rq5pP`FXXmkoUy(lic+m;iijd(8m=&DZv;b4wfZd6HuCC|z^bK<}%
z!XVl7oAa2ja06sL36!5N5aYhaRlXf}U4iZJO|{hYr5MX)Qh_)JCT3L%iZ@btecWvX
zj4aYL^k|ZOaRa<jYJEgUyToOkFTCFf6=DQmYy4?XQy#gIvOdkC?c^NxlYc4yn|)1t
z`!VH^N=(<Gc#7!G*)lcjBWX%+TXB};rWYPZei>|9%L+zEZB<W)vfPLHHRSz$b@!;r
zx^{5c?;W=AZfSJpOsC<FvCdW>yUcpkj-XzxU3N{YF)gkYuSvc+^Ws)yK2zYJg8HLE
zUVDon`D;~S{#vq5PI+}9sJO?EdEV<TiH%um%BI~JyLKt;_F18*j`xqs$w*WQLM&;^
zTmr~HY8{8G4aynZeDe-9W!X|s>Jn#Y#2KZ?YCh@iFX~p5{)fAY&gOY_^5<+DB$Y2M
z*=2jHcCcSi)lEa1Dj85g;!?lB`i3{>66!Te-0izpk_~Y$2#RT`4A5>9=NkKE<f+c4
zKO0|`?p8l^ZyZd$$)xy^e74m0G7p)Vv|Bsf8j(-R$Bu^#b{`~-(YsBlb%X;ua9ink
z2u*@I8juDAsGg)qF5{U}bT*jTsp>z?e{EXUTVADsu_cJ@E~IOOUU$1mPQ8m%JifcF
z>q-I^%S~6jmqzZDb=;G8wsnW5HPo8wC0c2g>r#A=)dCu2@raR+Nd2#~Sw<+JG?4vx
zU=^W;euQ%#Y3*Sm@is?hkGVpOS=sCJobE(J_Gp6!ct1k~-xjnU4k5W(F{lLXvzl$I
z2<<Ft@hTC7)tb$6U?YnY<je&6zGK9_iFNR1Ha(xQ!K9C)=_|WGVc-!;BW?VeeyZ>5
z28X`KBw930{XR$m(kxhIt!&g6{d87ZyoJVO&)vlmI;!k_SQ;|knbmP=c7r^9@2MdR
z`RvCQ<JN;1TyOku2L?oR#M>9G_Q!nMaXnu9+%0wG?ppX1WX~%!Pe~@mH+~s)I=FO{
zI**!p$&<IAG>4YwtCqCDktexilXsxX__Lmyp-0%%7bG`WN}9?OZNy}nU!y$s+L*LB
zE=H=4E>**>eN8?pY8b6BKcg6fpDA~Y_w9SHP!6iS#P`snFBhoV_e?L%B*&a-5ENsy
zxECB_jQr~T({S8-XO#`8?vY^MJFDk)dB0021mg_Z-f}Vy8bc<AgDN%I;O3T$tw{j}
z*@{8267~*~^M?6l>hr2iRGeIo@yjjrTd)&HgWdE-B+c0*4~3TvUZ^p5OFoTo+FG_V
zD=Q86IV=dSyUO%&VKj^Id$n&)@7_2r`L=bR2#*$DkHZ6w%t;qQ=hvT_wR%mWcBuH3
zw+cl}FdO|HU6ULVVqf_iqc7W9@yv>23&ehkc0Ct!%=xvuYK*D**r%y?FN}nIi(29(
zTU3KutvAwp9T%<<+(V^HOTosQ{%co%qL$AGgc_Z9@vkT8oJ{N<pS3%4WV4T_-6g+a
zsy08KNixa1!1rlr_s#wE94s5(JGU{t#%B{p?KijBHV-Aa=U>olStbWw_X^kCY;9`C
zJ?uqkP!JJeojnTmYQW-S&vjsXQftlilQu*J^?{-1N0l<+O!dnLt>Pjajjs0Bix&?#
z)CTp(pI`Jc$N2buhV8c2?gIa_HD`y4o@45V^AQsjsQ>3CdFrvP)3^-5yZo7Ul+fVh
zw@H88WR56(;q9S}#5KQ-B_|~mF{LsSkK`Xvdt1KVHCfqAL<H?fobC9wW`7B$nEp(|
z<kxVUn5pTR$KH6yN2@|h=6@{nHF|C8udoHvb}rOtZ@svCEJxs&H2sxQ%n{Y~{8nFm
z*r><n@cP$inJ>1jX1KMBYQNaNHu0C(86KHi@NW{V_w;`1_U`5^yX4UqffsWdjJs8L
zxn{&ZZq5sbV~}=;gg!jl!J9d#Z-4c~K>29z<&o#+vY11@eCOnadrbqJb7KyVx)*Ia
zA5UvMx>C|cbV;Q@^5sKHndN!06oDC(8EWycV^y1(-A2au)Xhxkfj2f)hYbR{j)EQP
z+;fv(b5AsGf1dli(1I>DuP5cve@qe4+t#yW*p@o_g|kPy?5;?+AI}Wwu_I|g)_q@!
zAEoJSl`k>zMw`_?t)?*MavtE<6t2GWDm)r}QL2XVPV{UP66x)luO)Newk`MD8Ca&J
zE3^Z=yi>3Aw)zV>w_aUKd}WfHsp3H<ux?Ay7_z^odr+oC_o+py!t*H|=0Tb42N&OH
z7uKoBw&1j!s7+PY@^bQOFSbZl>kfwb4@BWQ6iPh#-&a2m+olBJY{~6k{V}rK6F1b7
zeukE+JeB9wmG!;7$5i_Q=J*%iEW6(FAXZ6hk=>~)?`it(wXc+l!f*QRajo>1P5$re
zwjE!!3VUo475kIyM6lFlwyTXqX=HHsX>qot&oX`3IZ}*#7lj#d#VkoXDhiMFUd|lO
z%-q*=C`PSiqmK99+i5do9MiZY*hJ)@%Oz;5tzXlL3O@h(<05C|o0Qv>*MuYz$SOv1
zwOQKo4+PUoi>{#YNo2QGEZVrDNlm*en`Lk7Qmsvm5^LHvSe$e5+<Z6gM))C1Dte1E
zWx>s2lXBYp3%hCeIA%X`cB|^U&7LP{L>w8@SA%aK+UA53Uw*#d^58x7hs&Qn_}!_H
zrObIAPR#$jl@Z&E_SR(W`QRHk{qhxIUG=ty-^RMLYYB5`-|cLeCsj-&^khH#(d#0d
zbm2UG%{SW`inacvKr?#tBB?DbIYAaCz9+m#?sBX*57AAgzP}^GDV!=utbHY+@>mEX
zUm5Sh?Jup*9G_GXEvoG9r9CfoNZA=?xBj$R<f-yz{Kq&?tDXGAuJPx5Ru6>BhHVSi
ze0E%RqaF%R-Mbud`>f{?`q;O;j}HfWm5R3Gp7>nSq_BHA8qeE~Di%G*sN0-TxqLuE
zJxv=HUbA<<^@*kQKG*F57PqeKeR9d1et9X|>oFHHh)C{9xg->3k4duoFT|>?MnCN1
z3S7lY#EoNA?oxI8_>>|FL;02Hvbjne1(HI-*-S-D?rYbn37-1i!=bFBrnwiA7t?i9
zQ1W@0IsP-;B-xdTZ*rdfQiL6>obuSOeG)np^kamgjIXI#loVf3$l76*!|i&8%|#g9
z$+tYoJhIlSqsZZB>{Tb{*x;upJupWht)rTv>fi68cTvMK(7uQyFH%9Yb2}7|COCEc
z={=JUr96eSX_L-JivCHYR>H3>sm3J;yK-sd3G=Tf#EPKC-uqT&)qj1bpeQn9x};}_
z>+yut<L*{G8iK<~36deZeP+}LPS2`1i=B15ruL)<YGTQEp3>d9Ns}o3TycTIjdlHL
zP{vMR9i!T^ede7G8m^+;B7zo!F6?V@ZC6I5DjKevq+aQeE{mdT*JzL}f3RHalSDty
z{j(qKGcrzKzeu-0wwk4Cq}U$vJm<iZTTxf2J8mtn;3RSzu_tt77O(yMEc&9qVKH5r
zO9f>ry8tIAmT7nkDQr#)OTsX22x~xw<*l!gKo=oHkcKqU(AEZvr<I&+@m;G&1Cumi
zJV`4!3}(w{8m+8ZK4Brb#EOo3Dd_4IE^%o!5!TPce+HiE&)r|~X*XtY4!LN@;KxME
zfYC88@+_QkmA0<dmpw52<CXw>(5hjb_EnCYj+?56&NrR~T8iclzPp;JM(}LfHq)Z%
z9o;fnW|(Gahk46n%NXZ#J{%GmgGwvIZPBj`b5&T9&!Q_Cr=<u4C7I8B;7L&XkoI1u
zK!;G2nT1|H&S*;d4lfCbgXID7nHYxmL{=!<frUwQ4%NEE10y?H!&wKf0$Gjf$g<^(
z^nEzv%#jr=G|yO23G?pbIe$d5|F*B@O=2%tB$!w8FmD%^z<_O0QDjVJ>yvy(bamXc
znWzQf#FaC+<txpPD`p?+N=^u*TztFxc+@d#qDjUtm+hdUt|m~?zDhALU;3iZo}_Uu
z&RN{3Qq+5~bz1g04hM&J0=+03?^r(Cq?g7W9Gm9U&zIDedt2<MnOHa{y1T9t+%T^7
z@3ars4l&c1?L>V(d}&yPZai3r+^>SDjQ6e)wb5FH@8gt;tM`RNzvI>JZc^=B8VlC;
zR&!Hz+T*IsjH~1wKBM7<X`$K}mBLrX_i%T&t;TEPELTA)YEgCcQqV%2t2SwUPFLGb
ze)xj6c7W{1$>R^k;?ve&qi7OWhUt`^>0Y=<Qo+Ei7?`7%@#yKZQmIHnjWFd;S8{*$
zGb!0JTc*ot@=*j&kcP<IWVuZAR!8Cfvzw285;|+&_Omj5zQ)5t&LV%#24mP!Hi$~^
z{{0_cYfT1wHPr7>MrwQBpW?dZ*?4B>li$PSFNQk_GjFmjw3I&O@UrLfT_VGhDx{^L
z&Q(97<TFs>!GL0^E=-i^%$y$TK=9m*w&E>453+3igH+6?O67_^{l#i|C@X3VpLp(<
z#xkeslC~$P78e?;73}76A!`P|{DIaJvW;``>jYhkCHIp`X4eOM_5qE@7vw(_+~Pf;
z%_%8Dv0n1J^`)F}|MFW`AHHq|W6!fy?VR56Q@!{Z-J?|ArPk4WmcjQ`Nn#JsZn`#I
zen{w~e_h?@;n#;M7!6F%ZtXd`=H4Q0xvH9-$6z%c#7B-^Ztt&kyM$*39fQ(HcBeYk
zw#oHj*II3b5ng)vh(o9Um7mFilH#uq<tHZ{Nr^lyS_R&Z$VaTYM$V(L+h0Ex-phKt
z8sB$llIk9-?O8f~|LA+#>$(^DsLj<j^Wtwd^Zb(CN!w=Tc3-`IPK5c?+<+)DTXcpl
z@R<YBqjkOyyi27c(rA{sBOTf6k4B_X?PEsd2Wv_78Pl`Z?vN_v)^feiUauLE9(Y==
z&#Jz*Oc9@DH9lTSwOX4}<&Pt9C-Vu8kX&Xst_V*balr?XmRScO*KK``jrGg8x)ERd
zcJJ2&delF95i#t=os`t|D5g<s@%$Fm(CSt0bym0A%PxG4ksd=VGn#LS?!PXsZOib9
zbO_$5jr3qFvE{y=>e-fC^ja=d<6}|jTrqla9ZOj5(?o^W-Q$Lz6Md@m_9w`OavG5j
z9F%>{Q5r5>L47ZDH{H(;C-0&+rwrrckh1X3BnRe2hKLWovdrD*R+h=Edh;l1Ib|^(
zH*?+?b-2=UrN~*W<-(&3uj*Z!=k8~noF6<~65_m`FBV~Vl@hHSN&Pmpk*snNgWWyl
zQM6D&wOLgx^jRVThg(P#tILPztrr$;kI}!G;o>dYiCn7=>1*d+3N*qm&{ZVqbEvv_
zk)}B-19|zalqpTgj=%Mo^a09RmGjx3QakHS_pcACi@RPQOmnEuq$ntJaHuBHwf@xg
z%=Dr*rGW`UlWmHu&h2WNNISG)Zri$ZrJqUd<1dA3eY>GaSyFfHkyd?DzL#^A^cdP<
zqzm(#pG1xpx_7*SBk~3U?F$NC8Vm(y6s_gnF)=yruk&zqmTj12H}HzzZ=xpMYL?sz
z3!r&Xa~|z$6}6xOD$#1&O(Ct&Z`8@xb_|b1^Zxj1qbJqcDVvix$o%-`IsYH$8f>OE
z)$EHWI8rgMsiT(Dx$S+&DatNRo>~)n7s1mmCDJR&fTr(<F{S%cN9pDBLaY8bl~1wX
z6!d?x*>u{PIGtB*yRNGfr(Iz&tWgrVwp+rtAAf_h)9dLH^UUXce0<Aq{31Wz^$+Lw
z@7DEOT5G!V#nO9ZZAZxPnq^ET+Z~G8eH@&6Qo2h0(IKKMBjg!<QdnsF%7OuNnO|fD
zYh3$`b-N6^n&{<<cuq&nmy?s@PhXO0)V3~(o(t1VY*M&lL3bSWO4w>RJ;na%i?Y7U
zG67B>v!0Er&N#PyJ{U_{HX~1_T+WN_e2F=6nX9uI<IKp?C(3=Z;4;4b>Abafnk~&i
z<q?6wl5=g@0lH$5gVK)&;%n<B>oQoL6)!7}CF(yiW;(Z@+8XhryZ&`#M{32mBA$ka
zcd7?3Wr5_7-j5u*j4+>$ItKj$rM!e01M~%Yg<?6%ME#=hFr68z0X8$no8z^(7MbBU
z#^e+FWZu$$P^3(KsY-8aB4i|89ZTLHvrOxs?mRN^Hjm*=jD-o2yltLnAwz9QRo&B~
zEZQ(jo_j@(bn=-!eEQD@eCYK2o7JV{THI0xQicWO>4rL1dGn`l+fpxu<Ki##k{yiT
z?xC-KThw_*@O-Y)bW4kXUwP%7J^y4U+nFsbRz^W0pX4a%p?SZi^pEVgeAAaK8_8nK
zgkIr?I<=t_YMIEA>7BzjbdW{~XvT|YrdelFfAh8fsoC|dvxc}quI;yJ8a~OLLDM5b
zcR$QJ$iv6ElJOwZM|v9-*~=};@6tsK0kSzq8PrQ&5r#B!^-ok&t5LWMB|H7i-w>s|
zYD|b`H@1IOv&Y<}Z!kLlV{UGUbhJM3#cDg6fsV%>N|knLozLMJWF6Xy&*b0G{&?k)
zblZM{hS;ato7jLzoWZinbS2x)wz`-jWc1xxY;<e^%i}{N#&C*UK9h0(bEAvG{M2VN
zsSEe4Ui3R97S_KDUM4!)^9&{2>8z01QkIHsQbWEM{^5$`lRkoT-&=L(2yYP>$=uD5
zdr(nvW(~_!^cFHb+Xq#uXH)!q*OO~KriS?16R-O1HN=N?Sv=i4Pu5RJlM*S{Qj69q
zfD`;_x{N!?ky3%NX;qcsj%zVy&|s1tGFJEXEL`0zgBIpIQ-K9+rWD%5^7D$JQHjmB
z^dD99HEZzYnO&Asl&r&|=d<WPOEyUPNu%1?gjlq8D8jX<qTfVCZ05~c@`90-7<R{v
z!8x@pfkys?GC7LAO0J*L=wx41(9vmCiXYS?o3BTjmZGSmzSW8y`{PMm$#tAJWOB~i
zW0f=b9j}(RGv0VcQxl4<u1n4>dLG`{ll04ueZxkhaSz$Qg6Oiz%Mxa?)>Yru3#r*p
zCk33bUIx&ktd>XmmN8JI2HI{-Wns9{luLKZ$b6-J%3(q(=jTYOjrHo*xXUdf6P<qS
zmGA{w{5mPZN_0PoDJ*PXL1sO-VdC+-x|jD!MaSGcu<xmCqu(63)%~yvb=g|nF)Gd6
zSkmRrJLR8b*DE<|UJf6$seAMbE3>NXWiv>yt`>28<rjbDvr{mycm_FtV1Nj-;~6S3
zy(z&g%O)yKsYD!A`c<buJ{hXZ>1R}9bI?~0aak{%DO%+Sek~?;Y3>DMK=obUwQaNA
zeaqwOMsF!g%k}42q%6gBq|1?1Uy8I!jb`fK2tVQ(pd&YN;(xh!&GBb+SbPOZ8&%Sy
zyD#0MKJMXTCO@Vsd5paKe?A@3n{b({CH&*dZX+8f_W(V!rFgUcfcMVd!;_E$Yd_t#
zi48dV8EZ;Y<0!B3*1ba^r255+m24KBpdRz&$`NWF$JCw5`i<~Sj*S_6bu;t&_Rkx%
z$CKXQj$bak@Kz~(*Ig0Et6$!CJJ+%Iafv$}N2-8Lfmfp!X-?}6p7#wFu3XEN$K`up
zcC3kND|Z7JgLk!$-!3)_Ria)z$L{LUto~+4QruWXu{DZU=3bct>nzt{?(5B=3+*?F
zym=x6_!QmW4rsk^z1=;$bxeC1dGwt3WjwOb6jR!roE}5%oCd`JqnI>V{ep<k%6@J;
zHapnyjeBz)GifxHWJqznH?d5b^!T*;If&)v13jkBx3F{8+$3+4$<Zdo_xj9n*hE_2
za#*CM^0hJsz2C7yKm^}}nxw;}E*M$$LEHvvPH%b}`$tU<ex(MID_AuTwK_$JuX~X?
zvDa7*GRG9oe?cDBM&hS_DJN=hP<ha!H8<<l<wjXt`RxNmYqd-vlSgazs9-0rB1+((
zn=D&7%lA*0xnu-eA17}Wa3A2$zu}$=q(&k%YE8JUg;L1)sX02sjir>`h*;u=$fmPI
zWxB=%Q$P1*Gs@0D6j8g(w;kjmQe!Fvl2geC98*IJ9u{|qU!`~lQO6&*nVj80`I3@F
zL7S}d#V3}cX(ryNTpg#{sgm+R&SD!)d&+)A<e6SAq;ulmn9}@9vhIcIUJVL&%VIww
zyIN<oI2X;(KVX;b_;T+G;X*{4?&dRMe+-VD#zTtz{|{L}roR~^xlNsW`2)ppI@iTG
znY8kY7b)j|^C01A!S+19n*99r_9eXk&Sco7++KyrNTvbdd%^WfkH6@kcM4kh$`ruM
zWAc@!!nsM~P+hJP%{WcH-L>;5KRghala#~uZmE{LB2Bq>>gPwwf{})ata`)&O5MhN
z;IDWwKxdkUN!M}N8<|8`K^z@!Rg&A|r4LL|ajAQ$eyZP%;A_6zZcyO%V<_CK{PO%a
z9dNxUaoC4zx0rARSDo@QUZ)eTVx-Ddl&fbjWfu&NCzn|RHSAub+zZ=86o|i5_@tn6
z3vd1_jkifTr~nRSnz<UcZ(e3%CIBwgJN5HbRb-Mk2vqqb8;N)-|KW)^9m#2r*|Eif
zSU-9Z_t1+>K~_6XGFN(wcp81(2IDOAH__9zbrEg@=Bd9*T<G%V81AxIfxKCVSaz`i
z8>os&q~|&rvO};7Q++QQp0+AZ!m<&$b2+tka=`X0T1yf2c$Zz_ZC+WObMF?!R!isJ
zzRqo$HFR#ztO-NqcgdEEEz3jY_{_RO%P|tbD(*BSGS!tQ>`;r5lBD&3Cn)7I3d0XP
zgJtb0G!_SWei3+3z6COMxv<n)%gX9v!K=%+&s$wAO2$`prYX%>*o<FH#+*NL*(RS=
zIO_MiYN@RhIPJ)KV{9(SC$X}u;d6nWq@2<6{!eY8Y?FXfa$0Xf(9vitf}BeNSG}1a
z&|Fa@)pwrAY}Zs#Ivc?>Q-UiDRada~S0qpPf?htWO*(<%|0IgxgP&dI8^|P%TN1}e
za@=i~0dcOrl1MCDvdnq@j9?|;#ix;JMsP2a-C^&V(e#uyBuQfaA=QHh7lYN@k!VbA
z2J?I)@fckVCYlrLXpFnTZ1*%avopX{oj2^$NG?v5lB&ma4;zma6`_7Bm#imLm^!Ll
z59q3>9=eLU$PtST;IpclR!`U3%4jIe>M_z%hDTT|%MaE_$!tYxH;>&p8h=eGW6UDp
zAbcdXwK^d%$1}kq4%rj|wN5@ZF=&dA<Wlu;M3O{Q9cq7)L=h9b%4y|JF=eKzy)a2h
zLM^;?Mu+7jRGX+Jh@|9&6zN9ag0;L*wS3JF8j-Z5RIBJ*7*>)}mCX1n(JC3aGdB4#
zEJsjhP3L4V&6Y}|vwusPCgZ3>5+viiQkCfJ4=Z`4blrs#@kA2xMqn`PBQ+Delhd(j
zgQuBiN41E~=&(h0RNvC=AvG)cLut7UMu&y`q1XkvOVy~y?!3uTS)tPT*qt|7)&2St
zGW;2?iZ|=p6dT)Z)$>WaCdJ0tf5d8MduWD7_Fc6-kd}&m<DSQupS}T)VVo~00#geC
zq2FTB%`F5(F~d?|S_p{bj-*4|LO>LAv<_T>5AiHWQnZyfMDakP&=$lH#SapNwo-*C
zI?wUyE-Go)!R7dKGKhmd3|);5U0QcYX}$DtrdtWM;sKY|!Ro=GoJDEa4Q{C|!KW|t
zrW)kR0>6rAH`M@q*Cs`ywl#q$Tr7pLXMh+6SO!zi01=F68Q$14Ks*!t84mNaI*8<o
za!>^ItPWzjAuu7HqCqsBr+ek*m2~eK(tY{%31mkbo{*tWpd1%SUD|iCX}=bN?J}dg
zBqbGXPYT(5jgClcw+JyklEi4woIn(>=nQE(%K$OF<0H{@mI0#pgQqZ_WdJz(T}JxR
z)hn^r|CB&K3O?aN$N90G*Ts1s{fx9ZD%!<+AKSba&2H)BJg#*gbZPcO2~e@b;8Uz#
zTRl%0(Y8M(6`kz|v{Qz)F0`HHhut3qJ=RW@=^7FYbgm$@S&r?m&MZSx$5q;Y=vKf<
z$7PO1u-_VWUT~=rpknY5(h!w`MQ4W*$quDPr=1-z9RqSV6Icuv=&Wl#9p997AJCp;
z#0Nd;Uy=sH0sJNrKS%_q^Y=|OKS^_?*8xt}Pns6o8UH3Vzes8@lLl(iWD<v#Nu0_)
zSS6Qe*AC}%-Xbu(qUMlZQ5&z<AFrr+>vi=NHC$rrv-(DTyTpdbYeUmJqd-POp113>
z6PJ^eVB*Ja4mQAcJV*7n)cU2jNZTl=zoph^r7ggAckXps(AAraN>qBJ1-bMzqn)y4
z=S7RE$}5tVExx|QRJSZi(^PsQ({7qp=4m<?zSVc2n5JokKOJ1(jBlr8jkZgzz-vdx
z+kI7wY1%k?W3amO)K0`BmhEHl=$5EjeIvFbfR$=PX%mk<oz4(X<gd{&A^yf9R{T?k
z_>4q6SP#bfY5ZmwwCyeT@LB$~W84en4Rp>iP~}~X<v;O*In<?y0j>{t+U;9gccRJ?
zUgsa#TofL~V8*>NZg)&(GV{`_#nyDfElp#R^XpG_gGo?C6vrcL?S}vYT~*&#)m7C%
z@a<^4dKimAVhrCcVn5&Y`~;gXX(Xsl--NuvUfJ~xz4<nB`xv2^M;;D{$0H4)yXcvQ
zQ^6?-#=_AtGQON~-vsKAIHuto6W<?=m9%a$xxefGCO`ifVLf>dQ72AAPozZ9xj7+>
zC-OcA-C#|;8+Y$9UH>+Plx+^8ARw+Q&-@2pw)wV0I30$4zHBK5Jtjh*5K%N=`<u7c
z_Eu4E4H@<4?ZsdaAvo%cX#$tNQ$gB_V@?Dyl{4Cmp!b7tM#9!c6Mc&znv@%U5I?1D
z#-X8W8dA<Ym==%G97;qQ(004VaADI{08G%Jcc0KZPFovSP%$16f^zXVrOWMT>JB15
z3bhs>v6k7~ND#VV3o2MZujrzsZutbGy4eZgBygfM+$be_e?D&)nxBu9(+Q_@=D~e!
z^^Tthn6-|yi*ZW^<+*?5{QCX+S1`TDh8J-vQx&(!oW!tCjO3Zc#uPS(LD!sJ`2wzN
z<O^4xyG;1q1@mFw9jaYE&OsAwCO-4Bn~f1{%E?g;s@;bTo27!f!|M*dy+QET!H$lw
zI|J~#c~<bZxg(du2mOis{oFObVH3_rp1z`<{)2k;uz=TCI}De#7oj0Imn}nZR?srr
zjTYK$je^*3q22Z!Crq@=@I(Z{n8K!DbJE2XrhzqGT(EC%R_qGNP15rs->05H+K@+q
zOnyW}T*<SQIN9U6_5v<qw$7SWsAN8M-ECZ#hyyPF#2@8B4@j(kCs}QDv}dgUm&N+;
zyjbo=ZL?5BN~kr0BdJ@FuvYP_q`rVz#xy3O>y8KGRe2<6;=LCWp0IF<)B(ja!YN*a
znDAu>!o%p}_Ry-%gBhCY7jUBN_+U)Yu=-xcgYGjqRDZ<X8z!dmAyLN0D}$EA<}?8!
z@mHym8~y1*xj8h9D&|t}oWPtne8BwK5%*>OH7Vy2N17{l-)WMNC3PVd66|O{;qM-!
zE->RoLCk!L)!i~T{=%O;R3>hn1@RwnvsFC>khU|myfjKJKR#0nGRks`b&}jNY9GDo
zg4H0!M2DrAmy4$8(4eYFG}igyIaj#uq;fQZD`&)kSx2|wuUD3J#)I73j$}lJS^+R*
zL&tdiYPVbryDC;@AF*OrlW8r$Q#0Z{{~zX5Z)eI{HAz`o=S#}6|6Ix%x0K_?c}pCY
zw^o<W)1l#2k-TPS!`Ov2AeGN*i{QFcovty<{6>wz-Far&6>bx=jpx?WVROsBRCW#x
zrHUElog0}m!nJ0RqnS9{RLz5PwF6SWjyKwx(*7V9luOCmDbw9-FN_Ix%yDr%h)eKi
zhw(+y{)WvuX~Q-wZP<)bH+i2P>Yl(uGv%d94-v^N*<|z=G;HrhLa$WA)^YUtzkHsK
zPl(YXqX%S1>r~m1RMif9XH^bQwp^c;Rb_I5s@!pmVav!>7f6G`>>pB?A^O70CFtO#
zdZ)BFA00qW59h-lk}F*CMrADo;6O!0iY?4jpJp$LA-<JxbE3BDxZ}(|g}>Ak4#~&-
zczKh3^|V)kOkMS)8<5(DK7C^|pGpPtQ;STNl2azaT2VeDf(5-96|a<r`JMa7)(d3U
z9MmHM`;;UCM<K-mtgAb4%eD0eS|pgUC1|R+y+Go6%0b=pYmd<~lN6wN{ZVlg<CXjv
zan8KjqjKIejY;icMoj55PS`ReBIUI9I5VdM&h7J8abPza2uTZ^y{Hb6;z(=F38cC#
z+tr6@7qzO4Rd=xV#r1~+)=)NDsXSu%+OOIB|04vLCD1YP8L7>lmisIbgg2Fu4UPDg
zjEB<7x9=6TIhw04a~us@>JW;LnTDLao>*ueKqP$ME!dECxKgs}dqzsKE$f^7ne-iw
zpAdFYM-@LQq=FKYWyaO8UnTzS@{!3-I=CSQvw$JRPkI@K9eQfR80~01pxp?eL<vJK
zAr#hL{$&>G+=p}MyX0N2Ash2*OVpseZ|mV=-Y6D)fNZLcMrF;shXBE7H<kVUT!Qa6
z=>#^*s6^+c(w<U(p}r<B5UDl8tJTG;og1$u@yh0?09S7YSFa0KKQ~-+n#PnDuo_K6
zIfE)yDX6HUR>ogp8fS+&;6xN%YBr7F{V>gQ!&D0|9u{zRn}+UwoKDR(h`GIdDuXwt
z3zGVxca`t+-?_5E@ycL{mDdL}ND~nSpPBqm3GdBW68j`?8EP*ycgWvW$lWFm*#0cg
z{^+i)yGX%E>|(?HkX)bC=cebwvd<i-tvb%td^@QceGv%riq6udJjzx4by^i(5ZmA(
z!HDm^X!Ir5(zMkw3aysFkbuex2yWgmcGo#`Yj&Jm_{QuY<qA}!AM}|jG-=zDWOl6d
z&qr9hM0>}IHm`Y<#=FGMj}|+T|I)BaEIn3i??yhBBmOSIVf`nJFut<J6{it(VIq}3
z{sXnVvZ=4h{#LM`PU=RKi=zd9@#>bjr<1y2Zd&U#&|&_(y{-1>AJJK@a<%8X(hF9$
zPuG!wQJn2t0e4Ed8zJ|0tmw^5y=C-iC9lo?A56DWsD@>e40zhbT3uJ-Iuu>^AJNj%
z_7Maf?p4Q8yyKmhtk52?V`*y|ROZ*;Bt-#f+LMBd7gu4(+1ck~pObXR?e*F9%Qe5|
zXGO2Lxu5iZ(VsuYq+6^~2i|h#=PXWnoX#zGL03~CuZ-pdk^(vdkNidO>w9YDlrkU%
zXUmXp8F<iGpqy_kT=PMX1by*UJY8}qmpJDup9W78FDZ!oyv#TRJR>}Ng0%1_*+e~T
zzUmD856q%NFdG-J0r5xTt23G;Em5Z%R11%4ITH2?_+u6w2i(Df2NHX-%o8{q*44oJ
zb4Y>3VeyG~XToUA2iY=>4hJ6?IJ_fC->LLG9Qe!>_!e@YM*togM)`te%lvTIks<7j
z(1P@ESb`J}pZKDb=w)2Abun!Q{Y=#_srDJ8tHV)4Ll6IajE_;ikwGF`68Ah~msxg%
zlmbJEJ`U>4(9KtrhmVKDCZ>9EpB8j>g!nED`3{mSd^#MqFoYea5xgA)`*Nk)Zv|vd
zxrpGvC06%FJoedqxqy@xUR;ngOQGFrU#x~j&R6T@T^(a-z{@EsO2VF~BWdUk=F*O3
z%YOp$2uTiXZL5d2<w#Rjr?kPK;4Lj2V;62|W06H-3S1@7&P*@|PU1+oMy;=2YiIfU
zO3Nx?r*WF)HA@;sUi`|vVHdsBw&GOGL_~J4f_!AK!TL-L$JOf}no8%kCJH+lDMDeB
zib5L<$q|s;i*hV{uOk$it|;v?WyU4oQ-3)4@7L?!i@ST`gc$=b%+eQN+&O32LjEFt
zjV~_Y^4oaS7gd<EEF=pWvdnhJGT}zfO#E=*935FKaEPmj1$U6l{-wzh5NNK7{8-^x
zZt0@$YzQ;DO!$sjyI+i2$>*`~N6)9lzu>3EzdS9za|es~q&slWvLs7Sy@j;+ia7Kl
zAz3d_*8PxjimZFN<Bt4&dF(7JUJv7o1`g~6qEZxZKR#7sMWqY8wJY8~zuU+3T&I*V
z<;5N;8@PL;{;KCjTic`DmN8@Z*8#1)zq4)28mceHX};vGw!gNzOJL7zOCsw2slsJ3
zhq4`bWR1Urh)pXojCRJt)P7p&fOS)BtK8CnY^uaHs}h$4^5^$yECi&P%yyZ$jb+lE
zEx0>`>2fZgwhZHD(r%}p&J!3g8a@Gs=+pS394HPky4<Tr+D<;NIyCLl&(aOu-MNs-
zNP0tUoD$tshWDlA*I|XCDL@;na;1Bw{;KD9ynl?i*@3!?;*U_of2!k$W_o4Bv>mdZ
zH)+a;b-m5cAG*Kk_otrwjkq)s2YPp!y+PC+WN(_|6kj=$RSu)FqAI$h1?20u(G^~k
zHE`l>s6&^!o<H?QWV`V03z#rCb!=2dtNxDP$k(+$Uv|Gyx?JqE3#+C)ZFpWwwPJ#i
z^(t8i7rCrz9@Av>ENnI)@AnggDActR%b=Z93vIiGVp~R{yEO>nq}8^~8Ww7bsYdD=
ziFh3otyI@z?6cXuelg(Un6+M%*YvDhGc*J%J(g$WLHCEeRxxs2U__=CK+ocfWiXI3
zxIZ@A?XIGmw8zG44^CcNO3@4<^QMEXM%TM|%HAMOBlV#@weBB0wU%?OhN$D=k!!_W
zXFo6q8cy7GNa*C>j#ypZI|e<sqpqMBjSp+L&eXtNnC_u-)^9vcy~b()T%3%rr?TA|
z!U?&H7rRfvsf)Rbk2$Ik+oger>rpuGX}gq9s;^z8JCNrE>4u#%<hD!K{}=3NNV~_x
zuSEKM60F7wjB<QmB5-+Ld#~s0cJd>?5bKez+e3MCTm5RR9(Qxy=$KtMI>eVh-#b1w
zUN$<7myOyQ!xgfB(BZTd_$EIO1J~s&Mw)xoXH~Hytv+MrxkoD6V>>aX*fL)yrpieZ
zZ%vKV9-$-JgqRvq`KT8YIw6)0!e3e@p&^s)*KsCfBK*}-(-5PXlp;fSHN`~hvdGY7
zn|CuN4g*6vh`?wWfoT%#zvaV`ni-O6be)#c+|+#tN?Nc4pWK+~MU&tu3I!vc8i3pc
zpi$B^Aj|{=qc$2GZi3TXq8gMJBQ}__`3&?wMX@rm>IcaJc-p0tTT_ED5QWEoM1XL4
zY&%wYD7K2)@nt8{wZ%d}vM^JBy$RH5>tzP(OJ)Oe&UcdCz->H<+ofU<Q%n=(srh{}
zdJ>O|2pqMOZY5|FRCOjPlk1qqAuxW066-7-)$67}NxjmY?g9~R6F*nL-<pyzq!Osy
zqEtarCS7s(WR0KU0`_!1oNkA6QETW1RrZdnFHzLLvb4XX5Ja_KiCXCpjF|!<lNvl&
z#CuVJB*2_$urM%dj&Kh2R9iMQTx+wVz~V(K{}kKyj^uf!=nN0XKJt*FKxjqY;6SI7
z!C_Wc9Yp=Sf0unWw;P$Lw_Z<|&a1fDdi)x=$n!FFT1=e>OwIqX53Ztu+&jHo>OBW$
z&5g;zc=UbWGk-?<`(ui<E_H*ehK7MX=&p-dF)G5<Okb1XyZU{0{FyO~j9(w(0}Xp_
zZRvyoxes{Sy<1&(qDT-u`;X*H;87DZaZZxWB+kz4y!1hBl?eiYHXrlr7g|tSXsBv&
zUkpj;y58#QTh&EFo~93P5A1<mrNi{``)u^f`|)i`jPx_KSoA_eJNA;)57$<_3m0sZ
z-{`;lU+(DL?Q}9CnieO~f^5A-66xl1?1jHIG8qraU!;G_`o%08rR9gKhqwDC%cjRz
z^1#L>aYxyeKi@H`4RRn#wv>5;GsmX`a<&P<LQ0x!IBOcx#9ySDogs0)6u)Wq)_bAk
zeM1vU7J;`*>0s=XwjjRNbna}jp+QWO!Pv$OwqNMydz388VeR~N34i2BZ9mcvGZ&~0
zjk4=vXgch4w^ebsnZ|+7$SO*Rzm0>!h7GWx>9fz69t`Q(tg~G*k5+!VDa^PKGuoZM
zqRijYYq~N*`d*AB?SW_BXMQ$gk8RrSuR@s>)*8#cI>~(JZBv!;`XUNbc7_2XC`hMd
zyJIRAtO^BH8^bCMRU`EUt6;@F_=69Y&b>CEVHWDdOV%BC>I3=_(*>i;oL@F-L(_wG
zfQk%aN?!<<68IpU4=OYSGpwRm;9<6aqo&lFy9lB%)1GDKA(GPdHv3r^{F!9}sm-V7
z%&J|n%74|g8$ZbAC;w||aY1wZw4!W1Smj!mTRn>2&)lGS^XYi*%ghc^V!iGnMqL&W
z?y>Z#*`Gy7J<v1@lUz`^ygIXJ#z!5;kFUx3Kmx0az#JBrAgY%~(~D*Nm<!3};mkbo
zaIA5(3zz=`;E!D09uvCs7anl>+JsL(3f~_3Wpq9M_t*Q^?elkHE~13mOS<xQ0kf}*
zpT+N`eQA)D;&4oo`OR5{W${ICJ@QX}-D%5-6F+37v1<5sd9=YfZD<GI2;W}t5t_ll
zrpV&N@k%5*70eP9%xcobeoR#~P-5z&+8P|z4)=g0{7gSHJ7kIHv((A2Jr*U-w74)s
z`oSuokYLPI+~CpZZRtN=u;W2AcBPZrZn!$9jh4@uS!jgX<V0rG2sH+(eNtYZ!%1@_
z$VP^2E$Mu>=HJ~TQblhJ5@WSx)^$ESzbe68G+37wHsg%iaClKuBXv4k4Osh;))oKc
z*CpN!lot=sgYts;d_mcFa{G6F%1{`$P@i>jko)Nt#iMcQ0@+MaY`Q!qXY>_?17oC!
zR`;J!yds=;ha=SuBWKjQlehLo%2ZYdWjoY2nlSSwiMS4B%E)*9=419TF<052TX9a(
zpK(lo_dC{02Gn2^=91$k;F)~}xLAj0*^`-S%Sak7*_piBE;Teg+q#(V+*#Q?IxE+C
z__P4Yb@J$*qXE0}ogC{AK9K`*USq`RrUKSshctObVOe-A`+!vvL?I3ps)ufN(wS?=
zYi4L1@N&&Uv9s~)!2XnTbnvJkj&j7m6=IZc<*#_366MoJJXWo3fPkAR1ZX!kxhucp
z@nH1ikUiD~`6G?8z7vW99Z(dwLP|Tk9?)T)gw_MC{zKLsmF^8N43T@*h7v(Flj}?T
zf*Z{8`6-%$2$mEN<s6~zqou#{X@Y`W<JVg^J9(`5csMviIqdHiSe?GAwH+4Q*v)QW
zz86ehGb<%nfCKAnJIHWSbhNmKT?Z;gm_o`qZH*(~-qA7A$x9v?9}4*f#7zom*vMdn
zl+KbEG5XDICp`rr!x^AQ^#@7rYu9Vwvs_#Dk<S`xk17Ua+wRmrX101TsHHU{21Q|a
z6Hyj<3EX~X6H$i2;26LLpA6{(fdpuUNnp%hIBDqCa~Tjs7tRSU6LjL{DnIto<3k`5
z*+{AjdD~Jov5h2gaugl8#AXXX^FtODD<l@Y`5{BxAQ55B2pQTN5)Dwt%b-4xP>4ES
z0%>VTNMMa7gS*8BCZOXX!}^M)2J3jp;5yW?s_^jQiEFA*GFcFjG%F(6SJ7kv+zEb8
z(Bedd7N0D&HXXK*B~xt`t10oY|ES>K&j@^G-1%a^Xo&NkL_ONPI7E6;Do|?Pv=QDs
z7Y7sSt*t3ZsN2vESVf?k8dR|Tv5j0<NB!su2^+hxMANEM<bY%l<goVRYN>;ts2WGu
zBss|QJ14oZZI&GDj<J?^)uzdX?zFK{F5PpxNTyB2p&Hi_C?uPT3^lw)xbme6ZlyST
zSU<pPX6uj#$+!GAAyR-3>xV?xfR7z{>_N}MotQksEzm_YB=x4P0+Ytj%56`#anQ#h
zI1ln5=unsg>xh=OxvXh^qF$&iJp4lLRzc|^_K<t>`l4zRLk}qtvK_11WX?f7&uUo0
zw+qK05GHSqRsUK$K#l6+f>ed3roeW2Nz_VE3!oGYdX8gPjcEHIFJ64i&zcp5@u=lx
zN&dx#e2pYS{x7|Jdr$^*N~*4M@P)qa3!$-~+JNeKbb&3Y=>6WfNC18#=>W=53DOJt
z6-w;H2Yn$lPJGy#b%}#wP(~IH1;U;4+K2T<$E3YjmN;bxDuBfXB1U?T%>+Su-!2Es
zWz;EO?{rFK5a8bx;Lp+i4~1<8=4q|49}<{;UKY7tW(nwjn)f>c{`%=I8?~R*wmzqw
zM!RG|Q;Tk6_GwM>&!_TW_R?dXb>q`uIhpR)LEZ)3$DGE<q<GnM9(^1W<e$rWq*{mV
zeeoaPqU{^FoCDt>c-qBXTYI8B*S@}gB(hNtYps3yT-J8fwlj0W6)`GL5u6a(@%!~}
z5<o!#i7w(CI9BDp*Ctunuh^5P@z;H5g|Bb3yWi;J$CIsxJKx$O65{rlj%mMbn>6^u
zzA*@>{=okHKfCy$o_NR(DM_9)@ZT*lpZo>>EBD;e^{_EyFNepTL&F}^(}zv*Fni3h
zwbqp4?R`YTfS8z&K;YentKm=mKlJixng7@(^1Q&Y7?<m>tf~0#q2IlRWP-B*owESi
zD}UdQmP<^u*w8k`WaIjX;)O6l*KX6DG23l%@@MP;^FG*YPy=iRqLgT@F%H>h&zK@b
zv<pO$IdrkNP)OK$N5n-wRYb|_fbqay6!EzfZ#r)wo)HXNdJKovou>p+Yi%Rnp%G`+
zTCe-}$=BT#_AzmtP!pw?p`cAai2S^t^}EI50YadnI<9|VM}Nmowutxc*o!-lC{{)r
z(hW7H>;;JN^KQ`p_51tZ&GgMSoPb~}*itv}trziMsa)nf_=^{MKlpo6FdwcJjX&Ui
zyN@G0`seB4j{Raw0>|DUhXid+n{i*WP>a!~Nh0%Ufqi;4LmGay)&$dt_`Ljrff{gV
z`W8{G{fg)Wvv08P0ODE<mX#DZzzze1Rh=V#xZVN|u`3!P1`7zu&;Uzi3OV&$NN;n<
zS+w<lAde$03@DFQ`W@K-!o|T44zI`Y9!U^wfk1gvZalFUAUx*lwZWXdz7lVi79JLO
zHRG8_-vRdA4U?Bhv;{y?B%_lDFT~1Qzb(d}?755_TI-FCcSy*a=7g)~1;Hm;W3)*0
ze@5gJ6IkB%U8t6hDy4h)qm*vwE2Vo>TT~v^`tE6|mQJnjMrwUGQtP|1TJ2tlN;*FN
zRLke9<vX-@YWN23ms-Ans^!}$jV<~xP+K2HSgk#u1GV+xIZ~_NYcyBNH^CdFeABh3
zm``nem@4+)jO>*1y@g7fcjGRifl|Ug@>fa;S&P(GO{gm+<l}6$gnqP9OZZ3aXw!Jw
zY?a1QV-y5irG(GHm)b(}LKOS(g{U377*o7))e=&qR>REtw-Q2=FGv1S%jhd-WWRTm
zGWH2_uwq7xK9w@wBcgWbWZnl};45a_Y>;9`KU8d0f~eZEI&i-fM*y)xrIb;u5GiJ)
z&RQ*F<SF(e`x>i_0I!)HJZcyxc%#^=)3v9Zk*H>j=E@njSZU|coVngYZ6u!&<f?70
z-h5YaAK+t+)h=r@M%Poz_$#v?RSBcTMgfXfhAh#2R60{-J^ZDZC@rqm<c^TwTP>y7
zG^mu44a}+QD5fNlqcqrAZ+?iDN+Ussk6b_1j_W#NB&oJ_?hNn}MV?YUyKHPnT|ZLl
z(C!dX<q@I#Bf=q7+)#I?*juWeKkISQcjPH?>R}gOhyT{~S2{u8%811&i-cIy#O_9$
zL>_K<6W%zjq&ogfJ6qy@A&RY6_RY}07CLsN?zvPSxfBk~VrWl3AYg|9_JhEKK{Q>y
zLHp{%0~y4w=PogIH@G`W-duqjQoJ4Cr`q!kxA9NyMY`j*HDllXv~RN!Hz%IC;!{h<
z0xr0K6|xx9E%N){HjEhAb}g-+ZE;q~USp4qLR(Q&Je^Ox`wqyWbzWTn5q|FDK#fx|
z?6<${Zd}Iy(&WG;@^`Ji*0I5aiK|jQaV*;uKru9vqX#6%AxtE0VIOEMo5!>w+BGEY
zzUJq-_i>;|fDMQMVcX7>NKUKS`K{=u%nl6mz%FVO6A|)F<EacDj0{h9QI8;&A?_D6
zMvZLtW&L1VB#8kd$^5J&Jt0VZGPE%<oU>x2OAw8TusAP*II`NH2>7fByc>fF@}Pyd
z^yvE~EZ3ZUk3X+}WM_YTQXM5f9jEgXf$Au;2a{k(&zu;pbEa06B&nbEySb~DG##k0
zYN4K(^$+OK3y@+%$LTpnXpTL##QQT{H=%tYx1hZ;*TLny{2cc!cn3TGCcMuPy$SCG
zFK@!j7jtjGEB12Vgjl2@x&<-c#Cj8AzSZ*<#PMdq+c1A4_a^l?-dJ}dW}cttHq3r_
z6Kf~y&^MuumrZX%9j|5Hf;wI6y9M`tCF~aDhs7zi?1xNPn%F#Z@1ZEXnGA+V!j(=(
zhKj{FT^G5QUq$Ar8cf%&9@U^YOx;~i6A!b4t?}l+Y~kR{z6*#4m4WL7Rp)pBNwZFX
zO%5z}0lv)t!w!Xm7V{xsXa=l7J0im$C2)w{IA`EBd5Vr9dmQr0+)Ra-Pd@tw7;}uj
zz%Z|0&p&~?dO^PsaY`XoK1`_rVX`P3pJRXmOsAG%;7&5QLgE^bfIJ1O)_QkCckVJr
z?Lcugk;5+>qYYkw0_!pGo9{zH^9fk3#V7ld5dkQ!5IOGhLgH#%-eExaA!1nI3G!EX
z#5awEpulY|ak}9U9(hJ~eJ^l6L6J>X=hneu7Lj?dbi*|ycw2jn2Lv(49a%*i3>MHK
zax0z!rfI|h5#yB)Ktzix{j>yye8!tO2DM~|OF6<69@7QI><UcaAR|BlyOxK<pYdEN
zG%9#t5vbyLBsi)#ssoNHj^jX~@*PTAi>Fi-eYrL~ZhSHV6jx)7Ep}J_b(vrbfOVdD
zWN!>mXk!m8niybg_L|t_85&!R-#I}%C*BM;yuD3PIK&AnafTfh{2(~IH?2(R2Dgg=
zU1!Xp&$>&Hh#jFgtWgE#TL@YT(mN#}F}rD$fCc4%egq3T!47uerey?ZuaPn@P(_Ue
zM->N-K~bly<|7&r&|=lw$15mQo;h7>i6((T!wr=Lu9=L+pvPexyxkLNBIp{2?*HS(
z5mN|BrMK?<m4}l<lg)A&kX?9wMT-g9(LT)t4+`AA3xV+{EZ)N(SiGSRi}wiZk4Iqp
zflVRoGor)djezYp0=C~6SiTnmiYK;$!UFohfLC4qQv}G<T)_ec6c}&^TT6KIZdgFL
zIlDvpZD7C%Si;w64hzV4=>h|8U;%joDquk1ayW%{%8cw_0pW(e+0D+Nh&(ejEFw=m
z4UVY8BJ$+Xz=&`I{Y?62SVTU{0gDK@ERx;a4vNTAFhe5(_r&6z^{|K(0m}%uTPvIA
z7#PxrhXh<u%bh9!g%r7lVIkubP_U5VPy;aJRksNjL&7b&WE1+rLW+#Nu#k{*z}XDA
zz>qw}Ei9zSC<_ZIQpUnUikz^}kOUl(XLW^z6iHNpAqjX0hFq1%<~fCigxejF%~T2s
znWQ3x#Z1n4fnvr>-LRN(woqV9ae@IBGdZ{hj0w1HC4b5d5;IMY2@9H@iGu{~0`E6X
zP}z{2&wRofV4oKg7IlBz4-z$Vjt>U*a5yer-(|l;8+dHd?)3q?JDG!p>2bON*yLu(
zsYPh;<Ku|n`0+s^=Fny=ZwTYO61;F7xN*h-zk4V(&%wf7x?uZH_8i@0nI7Euy}j+B
zkO9+b9)OGU$X<ht@n>7z?d64h4PIYf$k*V7;)Q%8#e5B3?N-Fs=)Kg1giT(ITSVCG
z#hitVjb5@?$k^zmheeF>{H9vUW^Z>Zq-^%;vl7ZCZz3zCZ1%FHLds@uuqmQ!`W})(
z&W0}{DdcSU_KG4-1?l)>TF^x5IY`(p9|P7Ecg%Ff9VK0HN9l-<@5)k2sG|AN)i*!7
z(yKQMDVx1ru!vGgTcE4HoF!&$=H8A3`+Te{2h~~*_B`8Rmam!2sWg>wn>g)>Bfjqc
z%bsMo#yxvsf3`&~dN#<$4#kTH_OEY9iFS$+1H`$uTXrndF%HkM(PhTw6R|uQe9!K^
zB6_&H>OM4vyDsW|&N^Obn}4E!;vNlbQ8dEtED%K?JbcvZ&(E`pgb{h#qx2Eia~ria
z?lO&M(KfzAuNl%ph2Pz9f_biS?yc*&>r!{^Tn>;6iP3==Rn|y}tpA;(9Phn6M}2Qj
zJ=X#7=KNB{a+e5HXysf=u)iLl0(@~Xc$)aX0vuloo=NFn4F7cstF_|WSeCAb#ZS(*
z0%pDy&{~H^>oNe#S!3tZj`q>@A{b*Ckk8AW47bR?=t;|oNEncdp6$A!jW=7m6HiyP
zL&gfzW8+l(+;V*%6PX8m{B6gDU@jy(_dpLVzL4)=n_o9!XG~E3OuHS202T>ksC1pX
z#txPlb!>O#2mJB~+h;9v7$cmwey3=h7r$Nup~tTR;^(=TI4O^_JQtVfWfa8C{=mK(
zzbjg$x+Fyi;z2HESwF4g1pXH$)EJUrBYthMU-P3p#*%$fj=nc=J8$4IEn(7wZD=e=
zur&t!g}+PDi}2gQHghG9VaJIg$I108f;<~6&p>5c#4MI{b6Ca04W5%ZE*}?2eB6i|
zc85WIxZVO>=p;O73paFvh@chk05QTNrwTVuS!IqqMBOje(N5zD4PtoFw=FG&rc^03
zMJeRDfik7AgrF=`mleb1hMEIBk5>F$2Dy$OI@b;c5<YEIMz~_b=mnQflpACp!c2W_
zv}YOgq`pfLjH?Ke!B-ve<KLS1;#It_#c-?w@8KqQ#7QXeBBMmLmCE&ak#)t$mDA!?
zMvHTXD%ayx)*oVfvXmx2Wc^WYs&YMk$mqesHGPo^B-*3`zm5N7jdW<-i}9V!mM3DM
zF7h7!uxIN~6nebM73G$i$XJRuPdvSXl&z*Rid6cdT#Kn}xfS^&rPP?osBy+n<%-N?
z6w%sTlQdnmls0d&rK`$d<?6i2mM%UqB&Eo^j3TuRR<6yvY$?mk$JA8kL$;Jv7_3~8
z4;e*{`$9D}`6*k%s*F{x%1>FJWM({TYVu1)le5+;SLK&f-8WKQF7VB7S>IF{tz4ns
zvb8_GmcF(kkYka38=4!9XlF+wttrLZdoj~eIVxrv6TD<P@K^CZLs4&7Qtb501}E*7
zROGBz+)B$rHCs_xI1Gd9m4&t@8#*gWTe%)>S(XYt%31n#t(9KYA!Vt@x;mUeFP9&(
zUdCO*T%~N+t}%H(UshA}e(m1AF5l7D2er}9jN!`&hV=(4=SJ9N6#q!+P%-!|BluTJ
zhssfD8O5kJMfHHO41Zi3|J*REjNw(vNR>mNGK%^G-+F_SGM<@~v8qN5Weo39#;WYe
zmr?wzO>w@DUB>ZSN{!0SZy5z-Fi(qiE}ZMKeJq)_NSA6W4%P0mw!+ZrSCE=L_!74m
zx>OaZ>ROjEm{JT?9kwzC=>EHiX}Pjx)ayz04!4xabft{ih3mS_HVK^xX|H^M&Kb=-
zUm*|st;z@&@zL4z2yOazhN7P3a=o4l?Y6E}lFxOfOG>c?9Uysgmh*=N;E&P(Y1JDI
zoUbAB45tI!f=<I_F7H5x7SRL9d8H%OvK;y-mnqbRROry($Z6D-s+9X~{ACLDpgknQ
zYfhh@RCvyGh%eLVt!`UWYhkFUz4@qHSL-m8*4HY>7*dWg?ER23=a}kvX4GEd?+n~<
z>!Dr7M0TBxCYHSq^nAm2$*zqGtZeDYfL&U0YL-*WJ{qB4#)d$<5l7wFoS%_Y1-yLw
zYC<=MZiz*Ly{tm>8XbumeaVuZ#9Yc;nOTm@%;i9viw^;E=5lH)l$}$#Oq<1dZLWo{
z>6?7qy^L;I6(YZWjpKdFnfve3xzc?MOE*}tx5SEfda@_v;Q7vDW9WLg3G_@VSvmOC
zx$bah9ME;_jy!Avu&xhKzis~STF}Cv@GG%b!2yS???u=-ZO7Qh52+b@@#fx;l61#;
z1$M^q<<Nsd=>GwxWQ>-yU-S!j+Ra*PbJ{o*o&87g6Z<11q@@FC7f74!7mY9%;>E8>
zaufdjO0u0mf<Xc+vojfDjL$jJ)z#IJ08K}Ce<pYAn)>v|{k;Dh|N47`9J<XsAS5Su
zY~UboC@w84gJ(nwoMo`QWBd~jx$sgDcgSC+Fy!z5LTB<#YeJiC-TAfveL9D;4H!BH
zCbX~V`u4&37k}UQ-dE(|B*`P6G7@KNe<uH(%Pbz=^lt|L{C@tH&hC*L<pi9pOe=)t
z{J@05C}R?Jj>^ekg-M=o@FU=*L|Rwl=Dp<>02_{z(f3%sfy}zP&z3-_XlM1jH5d0M
zm~4OyJJqs>PsSx~Gvg9tW?I7OXG`N6w{>cn)R^Sv`!OlakH-{N#x-W;!nnpgH9pDR
ze#vs<A_JVQjf>pm%>E1!$GFIluRz8{Mrn~47nwmCn-^i&cx{x<$Fzvo=a9&_%7Ea=
zd|$5fB+ouUC8Nx|3c<{L#3nc*#%r<1EiITImsweW@k!~;369N={(TmILMH!u1oNKW
zm$TCNGU*Rr7!czz<GVl1;^-4(NEsQ=GyguLcx5~VdZPSqz<76hH?YEGVq7QSmW=<I
z->e2RNLHU=141G66DOqsrCP{IV&;rv)*YMA+4wx^hR}<bkTGv0Ub|rol6VCyP9YfA
z7jL}nhdFKr&$j9jlzWoS7pH2NbxtS_ndHNF*C!9Byw)Sb-u{u{6~ECjB}EsKPHWbk
zqsZ<VcUmc8e~44|s#jn_`9N7$;sTJkr-`&uULa!>XG?h5fj%6@@-_wqPYo8!-L#KF
z(c)PW3pXzS?(H_f;bz`TDDs}loI%KPBx?!{=D92*^zGKwAUL7uq&V7_Y)tC^Uyfd(
z&sN+Mq&89-#*o)6F^&W7%f)f%S&?15$-1htGJED_k-+7mftKhOl9$EhqM?>(z3;hH
zbchrtwp8^-Vp_}kvOu1!5uW@$p}O8<9VxQ*kVEjZ8mC%xf+{+FLh$y?=wPXNqWaoR
z_4PS2%F`lFc*zuZbie^`_xW&F6n%~7dt7J{XV4CLwG|Te>Mg`KKiZ%Zt!qIA6c{>=
z+_Ombo<;KZLa35~0{??R1l*fNVCSm}EVAuLL|tUrGNcor6tAHr3y!zmvSW&tki==s
zcb5u)*I_vRSSWlViqj&gA68iMqeqA~D8iJfV<6!!VZn{wMgzm&afinU)x<0aU|pR^
z9Hwbv0Fz{^iCK&KuZbx{`PRe`oUK6<Q)ZZG^ykg`sbi#s9>$82oR$O-CTn%jj=NL_
z*;OV~a_T5XFrUgquU9VS<#k==CDp{qWI#DVOxPE7T+_-&ND5Hb^RQSQg&u(du=*77
zWMwH{%cU|fkfT85xszsVZKuHOQ8YFcPF7r0JgNkh_9B1L0}xPF2r<jkw;_Kx<vON^
zIX~{{tEKUyM;Y9pM(HTg&N}C!9oA}R@WE~=aqgO}ccj{0s}kfp8>NkI+wWUeDf4b%
zQLe?+aY`v${Zgjc%r`NrjHnQkt(1o?^%l03Z`Z?k?_=?yp&qY78F<(7RbJQR)~WvQ
zn+=^fSRJ(6iP9qEX~JTh44-UxYPh#8mfTrG<}F1_WS}uRl-cTiurE%J-c3x41aIGw
zs`x`5e5;=%`Ezq<t~a#KMQzul)gM;weXDW(PL`HcRM&`qQ0uszWM*qO+>W~8@a8-F
ztyUb{9q+H(c&|&9wmIgj<<F>vmhbqoKR}p!OY&4a5kJRY#xVXm8uoc&7bK6WWz`PG
z@KXIM&|UFocjP<m<Eez}sn3@d6<2JgeBq23<=sybh?r%M_&$5YKj14h3FW5yb<b6u
z_8b)r8n~iv5Z6*cqv>Yw(v+U?h}_gzC&LpfB46tc8j!sOu_LbDvZ}{5-52F7Yfg&}
zrTVh^ey;hRu6bW;eAU(vM_$#BRITfha)<XJ3|(=)3&-dz+7>rQznu}>^K9I>i(zan
zx05c|5BiJmoiMi)@RKW?i&RX}0SALmRW0}OiuE5|tLLz~i3P?mc-qaKYjfhr4u<Re
zBQOTc$8gIqxd(EaFO)F`oES`OlZ5>GV@NWS?UA~rmbcidt=VjL^r(6Dw%XTbd_6dS
zIm@Ea_&o1qjqLJfbo9%=yBdsZ*>+XWlc#WXp0}IhdOP)l(91Synrv3n^UnFpd0zaV
z*4Pc-)~UBnqg5WQ=GFSr-%i5uYwEAZVVs4PUh#MSHx}f%|4dX{`oZr!#cv+Q^)o+6
zlimOBWNv@!`K_l>GtS2K=S`A_tvng;!I?KoM*AQB{3;ulH!wHLm$@>scANxHRwFBK
zT#ad%Mlaz%M^>$N_rD#i)|>oL1I#MpucEH~e@IuYj$4<0KFrfiaJb=BzlP@)!&@lh
ztJaUhRiR;Ul+HKHaCNw0I=_b*<>68pW@AwNuD?3i;A*<THFtwMOQr`KovRyN)!l2C
zq+v8)9deWn-6*}?AbYFL@?gVj>4w+Z4R4hC(c$Jtdkn5opGB_pieDbM(fl6Z)X)8Y
z46ssk>V6c))9l<|hKIA@#Aw06avdLRc!93OtzCuh7Ev7j2gZj@kpmyYWK-=VsqQ2!
zI^k)OtPdt)s2ifU8{t8RH#2(h%+G_x!NwP9r|?Y{9v6T4aPmEAm*V<<3E5ASFkc*S
zEso8L$;~SBXNT)GOQR1DdRCGphGVW`9VxTUkB(`S&D|)U!W=w%a`LURAh$-_bvTTp
zAUycs)N|otbdr<d%DBwIxqhCfs&+@k@1n^jKcIG52cICd&nbKzu0uaR;26h<{hSZ`
z9i^$i{SOT9Zv~x?7IWwU`skH~+SuD&Svc(c)g2Jl#0P{W&EqW7O_Y6^2dioLR)UNZ
z<4SVrr{Ril;jyv5<Txq*_Bh+0)X5Y5D_0&%7}lT5XMdkJ7AtA(<Gk@^wJPV#Q9MZO
zsJ-LI@xg{y)gI5e`@{DAk;p+u>0s-@?wE78Ahe61GOqGjj?cx%w_mSDn{^py-_p?m
zmzj5q!GC0Q@GQQKvg@#DWl@kHa2C79lZwNNSl3;ucUt?9d=X~RdpK3D+h>O#v^W14
zQug=U-ktWg_aTQGWy>(P_b~?>UC(ID!;WvPIUDkdmBl}evixA9`!}ykmNC8;?f8b#
zeC6kxw2Zd%WE|iA@|ZF{&oDPix};_~x~_3<lrlbiXw}M1ae|O$L9(k+CyQRA<J0i;
z$DnsKu2$D+5{#ESe>v`O?XP-m*GP1Z^O8WPC4p+)q$HACkeqT*9~a(AVs(-@S(V0G
zF8z{NpXM!v^|?rt!Wu>Kv?T2td+nVgGp#tuX8_9?-PdJ<a%f&*|KgwCGv(9PzCP`r
z^CNA4{AVZHH^utePqT1W`Qp$0&y|ms_WhLWZ|GkuQA_rWMSJomXN{gy_UOd-q%J*a
zIZs4<Pu`#>7e46lJ!^}eRr>tG_p}q{hqb?@{yl5J{IG%}zQd&5UGF?l=6@!R81<Fi
zZ~dP2i7|i6xsCcgd&24-CEVNlp8SPTY2nGjXIjnr)mn$)(>N+V;^$v9kIZpD9+Q3X
z)5xDj!T5K+55#Ay!dJErFU8R;%%f%KoqqoCaZ0fN4DN1J`#*joCuU?Vj`G^+uIK4M
zQyQpIfQEUhXU%A=YNdd+w|Qs;E@;5!Cr=N1q{BK3-!QV6F56&bD8Y)xDx8t`<HR@6
z)(p*(B-X=HElhKS_jO>8!S7A;_ZpsipC^77yYe_=V3N1H;}R0oj;7OpH^bLi)W4bI
z_lbfuiR6>?N=ah+C|_B!YDIq<(HJ{Nc2|qP5>$x^+8%Iv@&$27kmBFpW{+iTa~fsq
z*x!DIyQc8^QSslwhel6F-S)$;*PqMb&Dh<Ycr~Zt%-_U$v-|n)&;S0SH$?P$P*gdr
zclLkofBxb&McmqKnb*7FWHaCW^u=t+n89+ryD5=Je%yO@!sjn++k|bj!ys9PmI`-e
zcwFM13=C_0EQDer4_I8wss59ZL_6J2$RK#iTg0o={>+4^wUakXOI`@rxF0VCRM?Ey
z5+dfr5glr2!y9S_tp{&u6xe{=VAXy1##Y--L;uOrf4@X@+<|&*{jV#M))k&`RwBzB
z0X>J-M^h>Xb`n2a_0r5laE~^5Vriv?1dcl?l3?Lx_9Q}L-E7IAS{iXhPNDT-Ld3u}
zWJjwmd^Y>|_4gHLwhc289rs}_;=)FJkufnRzHzXYR@~BaXubGO<-lg-hbwM$Dxwt-
ztgGY5m`Gh6mxHydt5c`v(ACvxP&r^-EyC5hdPYJgS!I@8#%Y`Bsh^7uZJZ80hqe@5
zDhDnFKU^(E-$eLQ*|HcvgnYE=I|CsZZVx9?D%K#*cwkFko^!Hjoq0hg!QQk1sP4Qn
zUKH$F9uhl4do=FJkv$Z)<E;RQIq{y%v^3!ZF@e^9zeo_+ddyhWb=(u=-R&UsbNHgQ
z4!7Dw#D(29l`%2H%{W*~&&}yMw6<GNIk5Bi;i~x_O$4tX<k4zld8OTnr3r9PE~RML
zmWddPIrEuGwlrtTN~85>#z4UqwIZl4-EfYv*%o~j(Q$viiMX&i-(^h1nKk46*jjhH
zvXi$~6R=TnYp#F_N?U74h?uY*9cnk*Yb|O9-9)b)8E=mD-tsWz*QqT7!=>s9p;)#0
zEUsn2ju}a`HTyvZfvwplUTMrV<IUZAKU(>*W#>2*(Q!|niMX&OFJw&2kyjk7r6I5B
zIkbKpQaP|4`QfS?jrVw+zU?A*XOG5xcyAAdP54Uy#2m;wJuQ9#l-81=*4L*kb+Em-
z!D@2jtzWknXO@ScwNL`b4K|ZtVT&z9NX%r9460?9dm^XMHo2IHflbJcR$XYm@B8P?
zAhrwF5;*R{X9*T|VJ1RiF5EDvmM(lDr_j3am56~|$c|QBxRo7$8+_<i$;+5s6<mjy
zKvx5|MuLD9;KnNYyT)6ywSJOXir*Bl(H`J>0xH-7T;mz5`|;W!TmW{oS_0!OS!ZBt
z|DHV>FF@ZO3hVzv07M$F`;*MHocJfi1loyzN`k<?W5%kkGv08morae8&fQA^8~5Fn
zfC?LLC?R6byP-oZt#?b!p!MDzjRKpG8?3s|c&F9<v+*?Be!gUdz{(oXp_XNxQZs1F
z8qz3mS-HV#S?A`SG_x#fWRJ#M%A-9L?kKSUh&gXXW?C9AAtuoJZcT!~wqwSsu1kqW
zU{=1%C2-t%8wnQn-m3_Sxo^v$TKeyuoI>ZodPTCPpp~juC0MXh^_mEYRH|NQQ0*#J
zZ;(@HE7c@oz;3~hR{BNV{G#c%{Y$tFqi#GOto`2RhhEzb9co$HE;WO;vOO9FE-W`#
zt*h~NsC$;YSYB7J4<vBByZn@3;qG!OLSha)XHYFIctK8~_24BD1DlW?t-8?sR_ocu
z^2EA660mU(-Uz6$1@9z8%z+PdsHFjaQ8Q@$XSzlCwKF1kgOeYv`fnmy-Efx#A};Kc
zP{zcZGUs3|y|SR^(7Gj}a^QBw4_E#2L?HbBk}Y<}T8ikn8&@JO?8dc>iMcW5U@hI4
z(Q|0sm{U2h8~Nd?8(#!R&n7Rv3D~$3x02(1$cK#zZ5aYfzz$Xl&@kT6^e$e)G>xW~
z2ht5!ngA_Dqb^0m^=OK*NNZ@cm}I-|&@etZTe}X~7f%}<0TmXyCm~`QAJd_h^8TP^
z(6!#ifJT95JvUgL_2wOouETs|`xr*!OoqojcrF9OHoO!<F(+QLxRz!dGLmThI3j~!
zOIpOMt~B20^oC(P+kGp9r7!QL32<jVNYSu2ji-m7UsC{{T=JvUiukMrOY5%*0|h(G
zilBZX<6T$xGL2p={WX)oac|8fSlCyQ2#IyPCkEBB-^Jt<S~o6<7}$yIXw`+rTd=ju
z&BW4#&jL2?!BjwnEtpG)m;+zvP)h^8QZs1%_eP_@_TvVt?t2#;cN^T-tcce^q_j<k
zNw%wRv&KrJD{|9ipukGo5tMQ_jdyWdJIJjc+rFyb^u!s^#?x$x*<kx=n%`R;?!W!k
zSmibu1lQOiUahcsd!^xK9a=uu-Rz6#cx8_?eRG&+J*@E9wzXqp$F^t3wr$(CZSB~$
zZQHi7GxPo4d%ycnp7W$>deXFM+H;zSYPVH@VxwO2Qs7mY9CDVN&VAfRPXt_#A*yYg
z`xZQJwgT60yOR|j+IC?$7_i3zEJjQ#z+&Luo^dwWc9l8mvp)=~uxHvm#4c2qV9K7Z
z`t|I<^YFJusPXTJ^zaz6WjW5Ls=|7BG`VIusMj4|AzA8R1gmV%{+eX)H0PVRbI0{g
z4A|#u1E?X4oVKQfcQu++(~d7mu#SoDKt;_oI!G5*&DPj`D}{lX@oIvd7|rRJJId-*
zs+L-PMLvgDTmW43MH?DfVa*CKDIeJWVmq_!Jes4~cQgj2wBKa3V)kf=Lci9et^&s0
z@-1N8J>M#E+JnFCTf$G_l5JNp`<Z%d4}Ve(9{TKwK!j@bXCOs#J_HUoHyx4vidacf
zGe)wOigI608SxsK20`u)OGVW6U>D-Mnbac2W;^Llj^upAM6|Y$J=EE$wF?TK5qzJo
z$claq*ZJgr(IpBv<ja(*tBWutAw9_l53;n#3(pqXTqTIWYOAa-Qo+Qzg=Kg3A9`p>
zZB5*FpdbebIcx?H(rDyB^MlEZbe_vm7@|M7DO^qGotg`RJ;RZv@G#dqEr(Me)mnu^
zx}c`2nmPw;Wf>+Pt;J*~^KHacx>r@FPb_M~5~|!@k{24;f{E_XX8mKEB+{njI{d7y
zO$Qk>wUxoh5aef1|60@CN?^7i=Ysz)o_pcr;If5n55*@^Nd2*g;-$98=(aoY!GLX7
zA`=rk0;jq(d+h%xzTp29uh+<%IZ@nEW;zG+EKt<P>=2}q;QdiyOtlc4DM+ITK#}~1
zif+};YE{UzvwqdHn-1~rYNZP{ZtLWg`m632<)JSvPS2^)RHHpFS;t}nRKdL(?7}T$
z69=q>jPGVjelXCpHI|-EqX%gIPY*zW`0XW*`uq=r=<F@;dctz-vSnZ#XW6>g`a^u9
z+H5j^Ry4ZbwDzm8{@nn4+B_=X<m`dXGLFro>My_8v@C`Kh*FuIdD2Ox-It7TR4T&f
znZL<!IH%e&qS{X5V4KZ3G^!Zem?XL^5_>u5H2w?TV&tJt$?NYAE4k5J4>P&Yp7(-%
z!rEt9y%n7t-DkYgJZEa>oX*mDxAL5O3ueeQZL{qBT~19XIrbke0Iy0O9tS)%0=FvC
zxC?HB@}PvP8B4NBF+<PmoOC$ZRiwy<CDB}blQ?K^17LTKuaSGGT-u*RJ)Z$<vLimg
zL~8!CSD}6ELDO0P?EU`pA47`YFtn)b>gePDLS>N|v;$`Vq(V9X-$VI-NDt+<Nn?HH
zE7iVPe?_R)5MzT~njqK0nC@)XXN4owe`x`DD7*cJsrp|YK479<*6{xTu3E}C1;f8O
zMU49j^^+W;D0hS2On_H*4D%OHozAz7I`y3fIo7z*PEaO4g^EN_KPJ7tLg0i~Xye<G
zK9Q2VY%a2i)KEWTZN5T2;@y1ekBJ`L;eVcmA}>G+)&E}YaQO8km*`57lOjsB4n7AA
za8p2D^q05K*Ugm#={hcNm}(te3g{$Y^%%-j4!`6~&m*iZb))ppELKj!;S8x!L`@41
z2r(3|6vAdWbqCLX6JLQLmsQ27)+Yc3k1`dN4`Jc=aBGRUXSy3)22StAy4QA=c3dDM
zpHr<A5A4HXGExbMUNy^xo%gsqf@BI%1!S25fgOrg0cY0Da9~i}@8Tx|h~X?Y)W-~%
zoCWkyKm}>^<5Ym&MP{l4qzh4@e0+>Z8y9o6@nbGLos)7AKJL@JA5^K2Rx|0UlubV#
zXbqxxt@^DwPJl(J&Po$VoqbOd^Xp0z)exjw9nje1e~rOR?{a_BCYy`N6`)(l{r|S6
zFwJ63M&;v%z%&zbC6LrfOslBp7VzjhikUT#QO&`n05~E5F8*FK+KJjpUP>k(o${BU
ze!zcPz;$Yy5@Y~W4bYYRU$VJWPjbq+vz%OE3MF}_TTQ>@((y{;I>8jcmOwKM4g}T;
zwHA$?Q8&*bdjh-?Fa*J^;sxvU0lL>GFlan3k*LOC4N|3ke9qbza(}>U0_f4`TAtHh
z<$d2$AqLZN%YfdCocJtB$-IP%+)%&dKdqlY28K3#tp(*R!D(j5nWL$b+162`m`rX*
z*k9x<I+=%b<U8vB1^CD6!C!tw>M!7${j30;R}rUxMgep_+)>cWG~wgV(}r3%FFqFJ
z1&r<;&hth_OcIv>$!9YiaybF7T50J^R2Gi;5=F%u<_Z(6j6jRduZ=$GE;)Sp+5Ruy
zrC+Kjh1M`%f4K^(!u|x(C3K$|B?1HRn&4U}Om*u2qr$XzILyLVuOL={gr#OU;Hv-4
z&Sd1+_7F_)!0cRMnx)W*fRcl-O2clHq0}6mE`awFvavu}C$pt5T5OThQS+$BpTk8~
zfB!01#yS&az7^DHp(7%WI9m#jjL9RA<;hI$7|zB^!XF`xXC@9b1hM{$nT}_R0kXRO
zj_FWAw*_z~k;8T`4~6zBN(mXoX@oPwaz7@jVGqYm+c8(qbn{SCWb}&(&A}k(Khr0C
zbEXa(wUs8e>V6dPy2iFi#`gto%EpaU=kOy7*v9#=KqEiy1j01i>nfvY9d?SZaBo^$
z4KefF#FoIp;gTW?F~#vX?cf?&Wk;N~4Yh~E()=R<nE&2&!uZT3pH}grg-~>Z*3oel
zVr*J1^(4iFfe@FODE6(55Lsk=%ym=;gNV(g)%W*Hi8ZQ-nA%?kX^+(Wo$)@%_zXw&
z;joyFL`H@z$HC7Z{95}g*aT^B+7O|vJ%A-Wfpe2keQMCa!+lyAZ~m26fAdJSZ-m#8
zB7XqFBOZy#?X96D&H$8aWx#21;S6Uoq^di4ttM;ouI(NJuo8BQ6Qey!PObYzRNqU9
zjFQQTXshp=VWXmQ6dBQx8|vcdupqNP*_5pzc%aug_;o>-*KzNVi45U3!ng?Ta~rAB
zMZ|m>o-nq&@8cMqNbQxgn7Tk?G>ueI2^sE~Gr5xLM{SyR-H8%9ru}n8^Xl^fYym@z
zyeO}N1AxLKJcWFVBIzzNcyTbFw+LXOJgI;T3w2R5Fnrw95i}QF#gEj+)?(Y5#SdfK
z8p8%+-I0Kp#AQgYF@CNBz+nA8<b#L!ezMzZVK+4sego4#6rsVx;z!k|uhBffo&$FE
zFXq~NW?q!EHsk=lw&5~Sx!;NazKeQfkjCVHtN~jD^xMK9i80JanD=A78Yrhxf*2{r
z+I3+A;0q8UW~LKak|chn6J1VoZ^J3A?ADz1Qgas9--WO{Ce}ZL1de(jqdDHR{R6rL
z;qmEh6xnn^YZtkI0nl|yLSJ=T5*-2UEjy~|9Bp9XEW3!s<R)bZ&`u_h+e8i;eAcmG
z^zc7sWEXSoaDkx^6(|!KnLthtE76uk60hI%*MKd~3M&Q>lY-jOHP(7z&Gmd+`Rt3l
z`jQOLkjOSt21d?T30_lab+1(HicIdB)Lt9Sj;MHgJOc*0D$S{yqXHcZu<mTg;0AuU
z)_e%fU=gd%l8Js>g)A{z#(flql{j(Bn9a%O?o)spHiJZC*mhc<gBhN5T^$1i2`Tvv
zbcW?TzuaV?mFFn-SG9c$Cq0<;7H%2{wRMaYG_uo3_#-)|)`k{f@V?3og&h0DGcg5F
zG=xT5A&vFbK@}iH{$(t?-5g=lAk{y7;DafzYpD+ohwdyCqQmi0MA2GYUCo|$Tbq#(
zb>70w2#4)7`ekJJ?VdtVm+^Z?3U!aUHwuxBxTFZihaag1C*hZVk&p;0F#1Y9Ju!)H
zRA#m;!}>yth_m(<n^~_w2bRvvjHfjq6g?OH2w=8&*#Kq>NZwrizh(w5x|rBn--P!U
zCGKZXtvGFfcP36Rs=fAWm6`km`S4xbDa@x~oBdY@=7U25VX(2fsos*XfhmAN2`qLN
zNaH12THk#k9jUtdwm32hDm%Fno#tr+ZCj~R%^5dw<8(bnor4_@Y<V3k^MBnE3e(Iu
zA}whh!=Nh)=|pa3{hxfd4Z`wc_;KjxAb}i5^Q`;}`(*{kMHq4L$oMI5^;8D~D6Pga
zGWw63Eu$6<8d@+ssPhg1fFVR{PijO0f@`Yfqg}mK6*-f5O(c`@gV;8cin<HB2gpj>
z9NRA!B!Coph?|lea*b@Bxo4oHh0~k{O_dZXU`EBA-_?DY|2OPndeZp8?E4mXEn_O0
zAr#(>-f>en0dMlO3@_ETuzaA0K*7yNR(o;X9!C(VifsBXuKP_$mSkFGX}A{T1(*5=
zx|aSX5vR_YP^wmw1S?P9jMX;CjYrxW{gJZZ)wa=i`6EmOY9?u%AT%{pLw|jDIPn!y
zmfzlp%5_Ie_P59^@1S1#pGEu-%*xH$?;FU+*05fth1iy!)`IsA$(8fV`|EqacOUl#
z-U=lvXccm$7sT_ZDy<vIS15pt8an^QJ_URxClS0;u<5*%TRnd<a&2Y6u9#OurWCPx
zU1b292a{}rzKI%a%67WpeI;*K@aE5&a&6p>!_F}dy1F@cc)I%e;2d^+!Cp5IFmvYV
z3)=MOn_Idd^UXx=LOiQvm61$+LoU6~6yYeMx@YgM59`$zd-oDENw)1r5up*Y*~P$l
zFABpSx!J1!^P+uEHF&AEzmB{<xGN_5bhnD1S~l{@&A)~6_8DZ|sSQDB@1KSo`Hp9t
z&zy)CnZDj7Eda$F|MwVFWI1udQ{5mWXd93DyZ9&>6)oUN^bG;XsEyv=5bQKRzr#V5
z+xp?cNg5(j;DaR4K_1Qy59t>UB-nDyWu?LJL6+E3gWkVrb>1#0Rp9BSy6jU%paq0K
z_IMD;(?JFoJDiruX+^dJYiVteqE6p}#A8Gf{lb(I&d8A!pJ%`;-gsfz$O2#sn8?=t
zhHt~LLrc8!1xPKPVLpF2URVXjB%~OHK}SA;!y=}^Mk7>PW(`u+VqK6m-hZzlXaCd&
zQ&S)>abR=|sHgu48A`9P7%(=DTwiFwI5O!R=qHC}$!!m=5?4FqpZ&be3ZsZVage$?
z4&_n<FLt*yIwe<g&eVp4PqM;IN-Gu=p`j)gbACL3AABytHC^-A9Z80>(9Vqah`ayg
z#qlLs5}Yb15u86S`;A#tj-7_}k}$<+&bB2$b53A}AEQW(&S9i&0L<hUs_2(o+$H=R
zKP}Tho3RxsGQ$&H)R50-N_G(GXsYnu!eRip1F(Sg_qRGR0*+{`%BgUaeoO&&Q{CiY
z-WjE`S!_$BYbOS3X{yqk>oKnMaz(0YW$pm0)pAdT%I6XOM%jyZ65OM)`Ci!SEoa@q
zDs`WM)bf3A?V;as>ckJ<njf(y%jY%m*mnyVEz>T<HgqY9svChgccP+m(n!`pj6R`v
zH(Bd$>FO_Q4N08Y`;ojdhu*r>;&wL8lUm1vy9q)HtDKF^xeccj#grY0v>uEagL}Qc
zVY~GoV|af7`24!9ZkPtrCw|Vwgm18XsII?NP@1X*FckwN-G@I|wHiA3)xY+MN@4tf
zx>CN&Qm#ObpFhmkd?&joBrCiQ;<zAaG$d#1EUch7sIoM5jb!0xAa-HHq4e&Y+_FY)
z-!{+RSeMai*E=4TOH7#GT}>BQ8R(Y2Ds1S*b$wa-Wn9}q`P7`$zbT20w<G#>lA~?}
znAJ|z{R42v_Rq#9sjg6?q+#x4LFG9g57vfaLUEFoc*xRZ+B=A$&gmJd<)`|9LRc7v
zRJP76*-JB<E2UeldRU=6dUX}|+-rbHXW%$>;BjqO&HifOXm@En?u$yiRqGT?Lf=8S
z6?R>)ept*XK00ml=}yL(pF1GC8l+4!5PJ_Au?LDBMoU`ui24U<^X^JaN9hwg8tEIA
z;+tExkK{O|r2L*=!&oCLVp4KS)hxWN%j<T5&2%kH@enuQXT5~zycVH>b=^J2V2F7x
zT66<Vl>c$<^vQwzMEqjJXb!7|xRL?nCeg8R+H9-I{fwj4XgH4ZxHkQ>P%69N`WhwH
za;_dj%bA$Hbh@e+xCDE=h5_6#p2OXl#6f=#L@F2$2F(1=_4)nS>AjtYMr`<c@N2wx
zKCV`6zizE`kd*!_jdGoFG()Vhj3gq`<n7be!+{Ithe8CE*@w%ngD!*i$^G5wjppOw
z_rnj&7o}vwdO77IhY#L%gr0<a^iyEInq}`)t~yRtJ0n@zXkH_!t`A?*FlY6sZ|&nr
z9=;#CO&P8Cbdk$gVjw*2VI0`Q?+J~uO$!#9b2wjBye-Gge>6V_RvhiSHS0PkvlV;~
z^sR!wJvs;}M9=u`8WLqEXwm9K?en&y5U<rvP~g?(t7sDaP^TZReu6lLiT?GHCx8cZ
zmD4`r({b(V4KK>RD`*~}A6INylqlKi=kiJ9&SxLr!(K`qahx7(Ryuc6?P@XBL^TUl
z7s)AYhb3*6ccEgO92P&EC}6t`JBFq)NuLZ0XNu9V{RpgcxoV7IXy4V&ypg`#C~}Gy
zJMti1hNetffA<eKkZIjOo%$J45dt+P{c~tEJpZK0!oA6ZXtxGUhy3%d?3Ll0t*)!x
z00`4KkN$H3YK%jWU;)RxZG6j5)E)Fik;?R%<ubr0SKjK%y65^F6tZEZ+B-VT4k3N3
zG0s<q`HEEsy;d7%+t7-0>u!i;${9tt7&qtr6RzX({*>e7)L|_8PmgVvsbP3@9EV3r
zA(Fj?E$-mq_h#|!ZhX<NZae`Bz2dCpPHA*JcI&(c>qcL<0`k!i6scDSq3iQr=%>87
zYB$Wwr?o<BAhGM9l~uFuKp!J3jP73jQ=i7ZQOYmTJaxjN7s$|q9K1*h4+0y0nNs#|
z|4zm|t@tx8`iVGHOSf&O(bio@?)P_Lwj{{s3%QHs(I*3E@B0tp*nYzec5%JxmD}Ft
zoM(+t!pS$#)au3_=zHO=zkZ6eEVUPeDN_=4@AZE-fZ-2u<1cBwek2o~IS2SeDnxhv
zyCNpmAGU`h<1}i+4gmKc{*1b|_Nf1c-NvjLbW5W@*D2vE7Hx9(yX?4FtViTDrffLu
zf#Kuz)i=ZNv2jhAS-%AccbvZ63+T4;ts_$$@;JxWY~k9%jKkWZY%N7%<TN6}><>EG
z*>x|`$zCW-NsN@BMF-hWCp(rQr+qzsnuFE1Mb^&m%Zr2HKO~ntSs^s(yV^gNy6t=I
zS17x^=={T{f?7p+pTk~GM{LYoj@<BIy=hqoq&$5{A2x6c(7xG+B6zV}x#{(@m!a?n
zB-tnP(a>E!5;J=)<I)&bx?|W62iJL;zjg1?Y7tYnHaEqkJA+EK$FPg{X~!c63&(a`
z{+Y8GT{1^U%6rc%`95*yhOH~9REY0GbQz(<Q%F5QC7;E|5DeEXpSL0F=9N-9@#55$
z1P~$pp0~!faNNKz@l-yP%NgMDTrPs`cwVqYa+@>Zn0y1uzD($_^RR@y`tS-zo(f9-
z3f<vQoz!{k-6?KV?EUu^VWZcmJ>k@M)$eW-GxxVl#OR8(*hjqr{8>hbo3v<vlUtuJ
zEROd0ao_oujTxzR*~IPn(Z8oWKfNE_ZQkG=+R1hMdg?EyeE&bJ-<%MBt87IaI(Uae
zvc?n6RwUA&W(Q?&+K+8RcXL(Kg0_Q4Q0!^ER&G<)&7s11%(014W^(F>WgBlD_>Ezx
zdfwOAl0xgNm}R!je4U)XGuxpC?Va(3ha!~L3s>8;9W@DsH|=@khA*khje}O;%GSN3
z$ey(n=>kIZl!2P|6<B{L{b(hge5HTHppYf(>-NP8_iNq;`g6p<(@3ju8O?$I9RdME
zwgqQgLk*qHUBDyIqYq*S@6h1^f?-{R1c^*9_|85|CZJ=w)}4FaVu`ZWM;_Db8CJ2E
zVC2vqDJ$tPO|DqS{-ScisQ!=$o_GBNGwoQS+x{q1yEWXX+dipWyG2o|c4JwfA(wR9
zOujptdE9fPc^pdd*lyad+_-1)qE)-+@vl(BzH&8ua8jmmWmV=6d>DI%X|)|&W_WAX
zU)_E?>jEu#yJ&>l)CgO_Y1gjB>M5U|WtunnGpaVX2C8S7U^kqSI8U<KM#pls2a@>|
z)B(od(tK7pEc=*?G|=DH-HGh$QKm6HM;(s7<E+#1Zdq11ptrHrhSP~A#pC#~xy@1^
zTiTYYJEsszos>Tui?km&!=9-l{Kt*2NxJiml&ekQ-x{eH9iorrOV(<9m}hJ&CfQ=1
z8w_ck9io%#ij8OF^C{05LW56{jx;q<6W49N^V*$frWJb5(@&wPJn{21AMqm@J0iC~
z>J8cF7%`~Rg+BtyA*%Dpgj*f3h4WNdCN#XrVy7C3=9<;>!*)H}%T{&s&yu-jwVo!u
z1``dAMKqwTqb59ybg+VeSUCNjW}a3h2|PZF)Z7?i3QiKyv+E=qq=3jH?Py4Q6>4u@
z*=e}4QJC2>@1=AL*6seA56p7xp4Z6QVkJGMV0yahxsUMmy63gHs>vOL{B1_#LS8eu
z0_V4T?$>DiXEa_BQEko;2Wn9LYL`1#Q|!j}x)MZM5=tRtL5HLu>yZf;5I2Y**m#f%
zV-qTpL^LI?=1H81)-a>KU>%~YPWtDTVaS;X2)WSClD|!$L+G<a(K=L`fd&_NF}<fy
z&e$v{U${4%ZI^GE66Bq|1&L+)pCyU3>z9*{!G!p12jN6HtZ~c;%HqJJ7=sMDh~xt$
z4{b#9t6~izlD%I@<%JgI8h1q|NJ}L?QH~vgE6d8BU=+1eej6Cqj8#+=m)sE<NL~)%
zgZ!26S79qlw1p8Pl05*YIYf^^YhsixFWyX?KqrBPD$f76wj3;!*;q)LXqW~Gb8eL_
zuS{abg3-$;#S&1r-%%Xzh!01YWGzJ+V(mggRj(J&G=&{f$r$cb-@inj(mPPjmqI!>
zfIw`#FdkKc9vV|yg~CN=3sv4E8LD+(-n6!(Vo`52tEQ^imo9)?y8`W*c0|*Xz1ADZ
zmOA5!LRVj%*+&OLcLl=<Bw5?XSJ?U+hR(Ayf9^!#V=TN0+!zwsLVE0;d=A4UpFTi!
z2C9jPvJ@<Qi(>8}Z@<d%!fG*A6L&Igbu(CqCrCJqN2umfJThcQdB%jco>2q2xG5o`
zau6TK!DUOBM9hnYYiRi#IRfh%Q6XY}<1b1P?=Nbmjc@0OV`!8Jclhx(Wy7X(rHJ_#
zX|kPS1vvt&+R5}859uXFrs|mr78w*K70ILE+{KZ`Ed>;t^z?%ZP;}b*c&u)B94b`w
zWltEx3MQl>hmO8$03%C&*n{NmIZh`dq-wZu$y5=fB1|D_rsc%G$l%H7EvwiKvT;uq
z*#qntj@%LN=4i!PhhvP8OWJ$et@?(-{?{jUjfK6ir?y7g0CdU}PaGq<Ua6d@EUvSq
z<qVdHjjCm~=Xa)5O<O&^3L^<x7w-Eu<%>c-9|}cOEjkm?@sqR05r=Empc*l|pwWvZ
z)@nmQ;`t!U=m;8mlP=Z(?GLlWDgoPjkY{~K_dUu1h9h{rGY{@F&jOEMv=T=)rf30p
zt}O=r1Zon0gk*CYJ$Mc~m*RO*$A&Gr(AG)81GHsAmbV0m{6faaYuJ$=-t-GCb#PY%
z3r{D4UJ&HCPU!%vNa4rxdqqr1c}O_7J4^FEf-^VJ2ukuhM)#*HWKKe_WW7-@gn3tv
zdgnPcGC^Hc!s?9zP$sfOvH%=OlCHmr!Oj+31aLXv;CsdVN?%YwUY2nNV+qPe+>pJ>
z4!N!qTP<eKys?)GYEK?QN37P@GT0S1a)m;C8(zprpM8%tuxT>J&<II;S(4PYp)dD+
z38~qodXyYkXda3f23&~Jxn!G$EBI=KGNLFDNTHcjk5H~rRGStWDdv-)x2u{MZCNC4
zz7^?A@Z!c3ey&o-t!-4(Ks*DdX;4I&`6E4lL|zNDI$wAhm)O7IoFVj5-R_T9{^#&!
z4kWYzeoe19$`kzze)l?Te|pS2HK@sy+lt%r*)OcZ{Wb#c36)+uTHFy5IGXjhjvPdj
zHpb(Kl+bk6qu=C6$22_1^vo4HbXLeJ!)jUNp3!P>-^GfjG@utE-;%``r$g?Re;l&s
z$B*&k$iv=jK^-lk#*Pe$#V9a4LAcu65XStwv@@PMpUw`)eaPsy{B=El&Ynoh2Z9OY
zMB&dwx7wh2hvIPOCUu~4bcd2~=c3viVZJ0{7}$Zzvq2z$4)O<p1V(ajfyUmPVEWon
z!)*QKhl_BDl(RfQgQ@wpk$`Km3x6r!UxY#pd3bL{=#>$HZF9IPg$H9x3tC6&kD5q?
zl^<@w6J5BwDM4|}lnDQ(KqN<EM%Y0EL13IBBBI{`DvXU|4+i2dCkAtQM{_<r0T91=
zfQEC${#R7S9*ndj&jKafU4D4=9~&>2A!CZ09iXC!UiLoogS%-ab77kX)HJ(D!R6R-
zx$GWbG1OW+{{oK6b1avCJyfAcBS?dFvRQ4upwZ+#yMTI+>_bF$m*m_IKcQG8SJOzs
z1f+9JnchHva)v&jqH#pVKJy1KD6D5_+bjlspoJ57EdQo=PzWL$f&eC{BUG#)0o?#9
zsAZZJ@BkiAC8P?!YEYr&4+N;?#TDR!jbZ$F$ClsV$YsAviIh>d;r|kEtRjSusWE~h
zd%%_wX$i;J#AVA0%B0A0PO^hBHP_qZ1_6hA0?9&JJP^nT%ETyUK^g$e2ZfDpFjaW8
zGb1EZgSAZ$;Q6nK)guL*zy=QtOFVU6Ajm=2cqOBN!UGMQd@>I#C>kr}GLq<tPI}?k
zKUgO;<ZQce!!j2W-B94j#5@E4!Xpbni3Fh&+Te=H1N(n<5I~dV;7|#MeX>>!fQnAs
zu=>h92*??8>{*$kGhYqBin^kO!xSC`Wb~80kwCFn8HRwwrV*L^6&^(>83%daNlH0f
zcEW+>DEx+i%96x|`tM(klhQ#nlFG*!n1C)$GO&PL9%bSDJ3J`J1#<qOg67*2L;}mR
z6NZ2s-A+q032co2`41@72a4?2e0V*o%EWiP(?CdYd(e_gY<pvX7Uy(fz$}>i`9=XR
z*&ek3Ku;9(lH5)dRdV8wAy9J`q!9oh{s%CPAS12O#6BO5Ddi7A-<cuQ?H)|w>UNH1
z)Ag@U=H=@Gh2MWe=-WM7QtBrKy|aQf?eE#=!h_qo|K1JtKjYN&U`IPDF#V3fXmPjd
z^wqUX7q9(7yKtI_{gpzqOKR8Pil}1JWIUdE{QNcXfW9E_+pf9;w$vy8sDg0tuj|9R
z`Nzcce(Exm=B3Mi5V))zWfq+)X!C^dEe$fa?I~5E{^>iA@D6%%j(h4(YQ>vhO<gx8
zcmwlLBb9VZj^oB8x4LF;`52`JFOT*u&me_A8fBuDBH5h*-0_!q)yG_<W1F6+Qsk-F
zXn~e(7{#J`=ldviSLy@4&)HU|miS-qQB*$k#NfvaqPHfP$b;p?zyBfy%NHFLC?THj
zNcAjQb(#i+E8pclE}vj?F+yHrI%PQq>#edtryCX%>9oXasmcoKT)#~`6ZtLKPnt{)
z_16INH5>0;URR;5ozhk~WYa`y9}tEfm+D_^x1x7)Nthw0s`|uhJSC40+8@1r=-Lx`
zj#y{TK*Z5|{_(#*#hLF^c%vP7{Y`Ch!}nrUNiuH`nchKM#{&*DJFRu~`E}X)8W8BC
zfdkhftp>!$3%#LJyf9fxvTWUU!Gy<-p?ihzif;<OryVhn`%wg|BjE$bAcJH;^s5en
z3op`e6lRpvXw~WNa!~`fsHV!?J$N&(&2~Wp_qBI-i~5EtYTdJCF}&x7m#sT{jU3V?
z)Whf_V4Zg>KAp3h^`oSn_pLYbhyTJ_ktOkeg7%mWcmQ4$8rv!q8?c!ZD}@|6``Cx}
zC@EWB!ZUH!CIgfhpV?E0v9TSp_DDADPo6PO4@uTFZZ?n-mX9!_qxPOMA*Vvy_OnJ8
zvFVyjM_;<{`-pkc0&j!f4G~P-z!`AAIY@M{R`$R-cZ1aHUT7KPM}Pur?TJY3+Mi-M
zd3K^7qW6E{Nt_|Gz3Cb&MVh(Yzn18v&rfl72j!1_1`3z;26p{l-_T=gtRPm%lTg18
z5fW{n5O79of=t&A^Bu0Z%|p2mGRtSHCd{^|LRkl{PJ=3!xeB<9OF6=1rloj3<o4N%
z?td}JpHTYh4*t1fp@hSZEYM;p&g=&d%@JQt6o*TTNC>2LsF?NBF2+?XG0a|+sY5Yq
zFtaC>-hYD~bP##<<ReZYz>-YcgO@!|;!`@yv7U%Fghp-R>I*MiG6-35Xi$(+_+l}4
zZ$~r54qaEjE2Qej(WB`Y{mdAM?kJs}uW&%5h(S{Y_dSErr9fg8F;Fjr#B!<F$k)0D
ze)yrR(w*b_k&nN4+USMw9yT8+hONHFey-gY;*)~+EsA5$zN8*G$)=;kYwh4}C8ZA&
zfn4)L<{8NzwMbRaoW;+N?eBx__<i5rfe@Jo`tQcL2P`BjYBgq)3+3`4W58jJJ6CSs
z6KKHQG3;z2I%{GH=g;57uoG_UHx$|GOQWTsAJ0*g2?<y6@<CkjHtAZ?9=MQAELJ6-
z${WZc`vu+ym&t0DH*&@Ga$Z(J*+{qN97Z%%if$v=*7^+Rg6C5$zExkT2C5Q-GD>_P
zv3UAF`_7@&D0o4NSUE=6$Uf0G;8M#RMRp`%*#j3ST4kTv30OW0gn#>AFMPRR2(N>5
zB#;RG($q2(v2+Zuz;_P=FQV;#M(i`~<ysHefM6<r^wl|qXD+ppa76drw$08*yw7oL
zP$oLIy2VsX@4DMT0u+;Q|G`{AlHO%U@W{iA&YH*O?yXg6P|El{xuko^-4nE*{X%qj
zC*2<#jA0a1-ogJ7v?!zMaDo`%wud=~L<?p4J(zFeu2jM;k5%;V1+_ovY|B;SrvvJE
zD%ZIHc_+IRNBOqBlZd&vgLzv#8@1a+f>+-mtqrv}^p{Hr!6gF|4|Sa02M>AQA((Aq
zA*1KOm9_t(MKa3*ac~yVrHJm|S|k@75DE_Bd@l2CG>vMSHp{31N?~Ra#C?~%FW8xi
zPa;Zk`<SW`GqJ5Eexow#{#cx%>ytMZ#lbipe9W;CG^RW>F)~9vGVJ-6Vq70Sqy93|
z^AXq;k@TU>_S!Ms!qCe0UgYJ6fTTK4J&_CgkX;N7Cd;|Z%F7<N#^%>}-vSxjK?ghK
zqjxqk^{#zUJO6gLU-|mGFEuI*hiD0T1p-z#DfxECg+NL6D>uoZ4t7<2qKfjRnFi}|
z(a`7?3EhIX-%p7PfIP|!H|Wr>J!-AB*e1e<A&@LhqJ3LuVmvUS;c`#T%M4ndWlW}H
ztre%TURlS?lT_0U7q_F};ID4AVnu~In#Q}AqCGPWtl;lWtqDx`WPs!9+A;QZ*kSuO
z{!h^z`Ov6dOm>OPMG-z@kf(LSx&GA$yMCtKH)XywF)WVnLbr|nYrbT1&lP`qGii_~
z%Cqe??|rWro?NA5Q|I-{-@8~Qb8$T{HH1eAzreNB3`8nUskAA@<<sVCcM?3aMj6oF
z*}G$WJ2O!HN9Ag3`iMCvdW-UZwkwa^aAlNxLB8f-W1L(l=Q1Y>uk43MTG-6N1zkoO
zdoE=13GL5IrBW7l>O<fpmFrq@*2<xVFu3o$p1=8a75!&Dmmx8O%LM#xY~mmtBw4^e
z^L9}AV&Nld(CnLb5QBROPNghe_}s5p(?mK^kGge$#;{E?Gi5wg9s-(Tvb--;#tHBC
zAizJg7@qj;p{c<;%*>AT`nef{S$Du1M=F0S@YsvY4UH?^)_oA19)}+3r+1k@(M(c(
zc?Pz-P`2&y%V%Y^1iakZ5QR7CPNt>Z;o%nK{b6!R7r?idzG*=*1CvWfcb`1R8yvp}
zqj8{j#~_0a*ahz}<$&~<{A+fP=$6EL2b_lqBr+E&-6U4Tb7v#USC9pl_O#>p0b2qm
z+z)ddVz;hSum(@c?G7H)cWDR1u!K=_{7lHhaMaM4r*;}B`uFC7E(%O;HC;2NKr#K<
zcJdTr+0%A7yaV|=nn1e^H7Rv5jn4}$TgE_#u}DT%Z*BytS=YwOA<DKE(*0|Mq-@5d
zsBnL8L;)nI_RS!23%<FlryvWy)!&wLyMS|lWs$DTOGggL<XjJ>oyXh}xz!$uytNqm
zfLjh1j3PU(==d3Q(eYP*q+z|E;TnhBFr;oO5#uN1ur*}{?^qZu)YbQOW9f~gU|rGA
z#fo9Sc$u3dZlSm>%DwO?CVPZH6Ym2-Lj6R3FA8cqAwGiK9>Uq;2aNecvr!Vgmz7(T
z|7Ke2<jgjS5*qu~G6{ZcPNk@3O+sm5^wFZqjz@5tV2w%&=x71$Y~zH512AF4D|KE^
z=%=kJeQDbSxIE`lyN^~sc5Dg@knYj)Ll?W0zB_Z-Tk1*DH|^m&UV{B!fxOpT?L2wB
zmB;VFjYTL2jK4&Fw}`7JS)Pe=94;CDEqh&ukqtaAG}2OvsXO*F$dKfQR>hrVzeSC^
zfuW7&tAF1meXBDpc#vN5uO0UN&iITAm~HQlp$rSX+WmeRqx=<43}53!@2l6p7!@oy
zREqN#7yA4u^0{L`9Au+J{}jitRuvi8a~}6`?>@H#s+;37uEvYp0uWCgsXdRf3?!=d
zs|}4z?<tnxHItOVG>J0%IGDIm{fu%fp2XJ<NxLuM{pUB?IsA>YWLsR(_e?S6xY3XO
zd*UMLw-)F-tcj-k6+YuP9kr8Szzsf2|0+C<lxBJVuMN5o>3qwu*&;F0E%JhAD?g-j
zvq%k(D?(0E8x4pr2g|OEMl~4M+cRkTqQvMO{=l0x>QbUty=L#$V!T|2pX)dxt%WDs
zh*#yj@K-zNL9=ykZ?V-QT^$QBW5vRsw66eIy!54)dkJAZ${-fL#c+=71>>9D$E{Il
zs#3O|#kOy%%!K@VNI%6%$qa~lZKJk@(x11#yY4B)ItJP=G{30YUexUDuiGAwl=@yr
z*ZA2G5BkoV+DtLO#N_4-0=4z?YkX~4Pt|^^7uwR%OG-Qk8+^18Tw#3#DE9GGOgW?Z
z&5lu$ypf#i5^Ul+9P4d9!T3>gM}|PpmhUAR=3U_8V39JdLTu?RorNP~*ZX)_<{!qJ
z#M;_~{P_l0yc-MXNvtay`F0*>fNB5%yrWmXtemSLm{x8w`pWa8C-7LQ@%yR9VW!AD
z=o$~)Popb)h@E8u^!)Q{b<8gnETc1^zp<<H2Z7ji%b9R+y?^vfmw<NDzQ6gk#F7Kv
z18o_%jJH<y(FZNSvXRFB(q-+Q!R!m|X~}JVw?9yqfVJ4nvtW_ibX52G-Fw%;rq7yX
zFHY~ov$bu>4B<7gXLCAQKrlF9?ptX)rU$^?$8#K<GzG~LEXm%qEtc!g5TTj-7mPU)
zeKz--2Oc99-u*lggygcv3H{Ocz&jOvrfd;g3Ot-?oc;|6qqD*3Mt*uw3;R~&TkDzF
zunWip$(`IUAZ9^itVP`bF4U4G`|c;+MIqV+eY<d#lZm)lf5^X8@5mwy=*zrYm165Z
zk=A}a(pvl98n>;E3oFsK`(`)p29%JV>fx_dmi}KO($!c?W7|GY+t`wf^lOo~!*6M2
zxzM?nDg#X4xIM6ov?i4<?W{vNcmwD!t8m^8d-${iV>sD{KP+XP^1f#Qt^&dchBegt
zup&9CO2EJ-=?!XJ&m#7i&*h9wXy3s!|3X9pTk#yRB0DAshEk*;V{C<Y%-fEt15gg8
z1fb0Ne8n4?!DbNhe%?>Hzw1-Y)9cX4CRL1pH(Gd!LiwfJ2tNM%KoEWKL>RIdtEh`#
z^}(ox=?fRtFF*_Jq4d>}9?mf5LkJDrbCUvu-FnuhPm9ZnGzc77aFjt{8xL9-efmIu
z@F92bVTZPvF@V9Xpot6O1WGKQgdjz2N|JIM(9S^`^_B2mUPn?TUqv;%AQQ`9hFM>r
zpQ>`0MuK3nY+5~-3kUx0#G9HfW!gTeI(k&kU%2QRg1p4C{8=e(N-~_c7}K1fo{E0>
zp3nHwOk(HZ;g|TQK5f>^awn8JAm+y9=;hiYDJ43pz6R6%?pp0l@y1bsV>q9U$gs9X
z^<{b?VZ?^EeSGT*tFTII-6w#YJ^|@|)ib_9xj8;T!prrg(R!NwKs7%&DIZfR+aT(t
zD&Dwo)13hGl62!`K5l}{jD;avbr|nd7myISiHoB=G)m<>ukri@neVwC8}pJ<cD*aX
z(VL?8ZjaE?vWc){apN}wTx3TjRpL>+m)6PB`yGtbIh=6^E~&+eE+G%=+t~S1yryJX
zs2Aed5{;>%-B?+%5-fO;Qd(uAoX!9@h`Xh@;vZt30J$E2BXKSd9y1FI0R%aCE)S4e
zPn>wO#xZ|w8C>Uw(?Bv<u6J_yM%I9>>LqfvB1}&uthqA#4zV)5h^*xEr!DPZ>=56z
zCc-TYX-FV${1I3#AS|t&XlH*BxV{BA|JgWaptE3$mrXc-X+cQ$gg^7hKs+V57B2G0
zD5lh))!53x%)1N77jxKLfpe!SZ0sUyXwk9qdb~D)K-4*8p-`I(@}cX@6X#HjHQ}(-
z;KXL47NG*#I8;!z4u<&(9?w$r_`sG(HPWD9HFNt$iL%p3do`FWU@SgBU_B|!@%ts7
zdCC4nKTt(nJz)sIUXAf3S?KseYnnZGGSS2mMbaS>%nK;;Aw-rTFoJkTJq<|UOlL^<
zmO1jTH9gGF>E|K-KnifgQ<<nIvEacu^Thguvko#%sI=@ZR(}QL-OOP`5LP`h1<~$&
zQ?Ny#UkMh7BR_PUxq`Dtqaixe$B4|+5c>T>S;7%X1fn-2{ckl}B7jG#+C?*CiA@vX
zwc~_Gkxp0wwQZE(Bu1Hs{hLUH;VM`vgMcF_La~%<(<22{T+o9q2$h)1#p<FIW>Q13
zti~o;hVnIy(1R?cRifdGo3RbM=#7jxTTDHvS6~Oyu??{<(zRQU#9oALzo)PMrdJPt
zxjMrsz+YH87R$7Ry6Wg-Z4d<@55jhbVugMXGb+9q(vE8KFjz$!7><HLxJZ^8Vr?*~
z$J|HGZGjZIa<=TqB)OXgBmXh#xz0cPXmcESq%X*$j7|~7*AO0=sED-|8p$EUuG)YX
zEM;;iR1|b{xb0<v(mu0;GAuD*KOk`63U}rh69HnD;I`@rB?@tmpTrufGEh<#n1Q$l
z^V8<m5)>`}j;iPSk|U-L0YXtOQrGUJ{1tdcxgbs9RDDkQkgxJ)2XEOl<~TA9?V^L?
z94GD$N+%<K1Ppn9#b|!WI}pfQW3F3>LuU5q4!G{J#)2<uE$!Z|>Yy>FFjS>0YvP=&
z=1v+}sUyM-l~vxMMYe`JV831DnMsi|DEe^3qcB@s!R~a&c(XVCBm+}$wzrm8Hr1+p
z8^L|1o+&HU#L6mnC`Xa$s1|V+NS4zDy9-o?eQ5d+es59GtG^5<UZh<lt;oHapvO4Q
z%GRC_`Zo!5{AEeNW)?LE#x5Y7TU;$>{$MesZaVqe2ox*~hmo<IrWdFD8Bu<DUV;5|
zPF`eI5}wp7+B6x-Uwc`FQn&mUf&Gd^bAPQkKfdHVDRDY*A{PF#yax6!N#5{84(c-r
z6{ECgSyt!bljMjl%<=>@@G{MSRtaU6y&EpSaxGB6>9#5gWF1Z)B!mB*EaJU<WvHT7
zWW|Z_ax3W_;Cx$b0nF}?mV(#ZX3o$#lP2JNoBrZ^9dN#FAE*-kP94cSeO2XL86ey0
zH|W4y^KMz9&3wP{h}$W}$U7*t0HsS0Q}(<l%9d|+WFb>Ft!AvL2xijRJXd6s_ZtT6
zYq~T-^!OR${cD8deF8>~q?dgJIRT5DBlke78JKjH3d5gBYXl~~DIUXrh<O<ze$9Iw
zC~yjgTi|#imS7x}3YADtvb#Qz)MtV%USug5zxZSTS&1~E)Cdxq*|myjJf;AiG-1>T
zT(bBnoj7LcihxEwMQscwnWLZ)gly5TN?=@uh^5?tf@%y#HHFX^ywdSXy}zO%w94TA
zx)i;NI&BOm_5Q+aYn+jJ5T;{X?4=LIRDt=B9M%<YgRSpkh?GX(B{q?l5o)jwcm;2I
z9XLr+=B011Z59Kom`ww?vN5|VAV6&wC;gq7^{iA7fMF@D@?RcTQ0=?mp|a8+*tCP4
z%FJDkPzE5fsafjA<vdf+o5&X@U^J7QO;D$u>;AYZ)?XE5SZx|p2u=d9l_ub_oE!B4
zs%G}<!l)pc!i_7ivXN<kN}K-`znQ>K4~Y3SBq5l>%LW5$2`7!ZvCU<AGtrpKUZex4
zqNV^;@}|M6;;v2YCaQZIzgcMPZALQC+t}WxNbrsdG=hVYe|y=VeDBcXkyfk+vAhzy
z?M;oUL(XhvZ3VEjUU1tVTU#K?;dN{TvE(^-6a<buia^R84Xg*DS~$GywXBGV;?5f)
z&gA0IFo~}0T}`9g80MgJux<@QXeZg40Sex&lkTqi*B3k4SZ4{c;g%Yp&Bk$B+r3`)
zt~3tWie_Q7v$o7&YbG99f}D1W|7r9qHT+cVQAPNx-Ype_TDddx&JpBJp*2NNFb`Di
zuiqeMNSTBG8K-UvEF;C*7)+{9WV^3=4oeIGU?s(x0#~6?S^J%KODQ#hl^fBkfhr=R
zT!FavhcJMaoyDa6ZA^>M1z5-D5%Lpn&B5hmeVRbZO$7n8s3g-sVP1~Eu8CJH5>=77
zv6BE`JjpbCr-w(%E8b6Fg1mD9#+ZHnKXCdV_*y_Pra)Z;JW>4z_!r?8cC#uhz?~?p
z7GX~0K*~&HV09t=>@>^pr))#Z(5G^Y|8S>ocm1JB=cdXxO)vUd&sP<2YmBb)zc~rt
z0N$3wY=*2bj@1O-mL+Kh>B#zH3GU3^yu?-x4$8WbXKx9?#TV~o3H~gLQ-Qw3j{VnF
z-YrRKT0ThFqe4}Gx3ns=Uk<^v7H1y;G7ME?+CNO(Ni(L7SDdDMIeJu{WwH6-p|?*6
zIif8M_z;k^;#lkdVnV&y@QqMebR{KjlU|p8ivEfwLTEW2BPsatHCZ1KsC(Y4A9w!n
z2hMS-sVOe9G6?Fl|M$UBnik^oJQ+4P9F&IE=b>R3N!wI-%zm%+?-^oSJFEy+AB(de
zS;9c1&H@Y3J)pr$3Q1=4cb&h1oj0?l0_F+lMCnzh+MYL=dqx}x<Uin<avV7YvDuoB
zRpzLfnv3lrH01PbEw`~=Pa-HAN=&vhWPJ`y>%YN9nqTd-7?^s2c|Sd089RQEuEEd^
zlfLcAed!pw!AW4EOD2NKz-?K;ZQ*{}jo?2(wSCek1p^}*!B<)@diufozc<p-5HUIs
z%NWh>2BZvZeS$cDvLmvZzybm*KMlkj#xi3VMr%Juy`X@`B>%xsF<0Rwf&`F+X@r&r
z%~RHG#W9&iOHhBC+=C^$hni=T{FM5#z)X!(T!dO!yA)x^er-F<Ead2e7pu-n)wypi
zidm(rft4M5hoL2HGhxlFrR4|bxMO>Or5Hg_!;JX9DQ4C}PJ?zMSPfhF1{%M8jWbTg
zTE9_@i?z&*+~KX8ua@i{R?<R#z65LaH+`$~a*R{ntmBjtT7V&L6Xo*hn31+XpUb_o
zq?4jz(S1X1-p^Qa4|9>-MIYjM12e-muZC76TSKtm=&i5<eUdZw2E|{SA6pfnr-Ma9
zeC@DuZcfGjX0)pX=lB1!8sqeC59ixT>RfdlmliJUR`TTZB4KD{>4lNgX(k9|Om2yl
zj&SBemhel9&B=Ih&rVYsK}wpS*OvyuA9V>g=GsOHdxhES7o!;sm>kN|xo>mfz`wgV
zR(}261;U%=d%~#^$h;bgPgyvE^>N66W}sd@f|ty9$mwANUp^?Ae;V9mO;0UOI@Y=|
zOc1jiGaSN9<p?3m0#lsN_J-=SASwYj8H=pi#9O&1S(>1HjL4+n6~y*|ETSTrLS$f`
z27W0>j}Ku)WFp$%;YGoHBCOP*eIn2ahbC+(BFfURa%B$&%keVU1LE7tfij0`Dk)$n
zfxF2>=gbN!#23_HB^A`eN`(l-6Y<9)1co)@gi?PRY}k_^s=Gz`I<Bw(KtDBzfX9^B
zjGyFV7Ymq>bEv$O8`4v+p(%a;;lh<O3g)tODu!IV)G91XJ^O3oX*m_?qCXX*v8{<A
zk;v#~Ghyj?<7soTCsn&VU{Dc4^Cb_dmRU#;d$ym>Td~g*o7HDs18xk>>JpHOQ72$g
z1z9Z5`uFxyNix5;p154{!{)sp!g#n0BN4MeQ$jb|lGsC`BIIcJFTLVA-dBsdiU<OG
zq$;m@DSUOLI-R-7l%-&0p(?B<daI^<VXY>5r{-M6*>W(74JAY1a{h^aBbMqAj@ENE
zhWo3C2=vxcXQaMU=Z%Vp7I#P$Mpt#&(jG!DT!Pi*a!7}i)jA-z)umO*ic|ur)K&zF
zTj>y;m-BuZY|0{9?>caDrkT`qh7Jwus8l^mkg~;$j6yZ1f@M$k7%O27jaJHwiD2d0
zj-rKLYOU0@#`44_|4Ux@OK!sEYt?)@1o_=f<q7>FRf5kFZoPdKr?<NhSjaFI`)hUZ
zI{rjPZQ99}$CB-SR~<Q%OJMpAN?7-xY+7=hq&v~&qVxEp4}Z<zb5`3mTy?oK9KP1t
zz0rQJ%MI*EU8R(V*dC9Gou_zbhhCoODbV1-ZLMWGtMqKKacfeglBJg~XW=`#lw2J(
z-XRVK{G_?l40@<BhZY)6QYRys5)U$53fXuN7*ESneA@MiTHFdtmrmOZtG#~W-WVNa
zL}R<xtlsb8P&Bo)MN#ycAOCj-8_`eE={<>1Txb%9-~>wNHg0V-<}C`rwi-r2*4GFM
z?1(WE9s^QTLDC*$(!WF~dWKM+){*>dWZ^E9*q01~RfC{LHgwJ0s#K7Tt@twid^QQ_
zcDU5ZQ+OE02n6Yz-+k#sPN?JRdEoVO2vN-*Q!+?4&goKKh(Q8op6N3;MYgz#p_pdy
zl0LhW<E*<bh|neZ{s!d6lwfd9#6jlFJkZ#xAff7G@z7YgA#nBn2E@khD2${+5DC!5
zLJ;%O6Txu3U~uYV{@`%!@%tKmcO=H?&{*N|1{;I+3uRU@g3s=B`XyT$1Q~1>rylEM
zz6k575vA`Q&fS`6*OV67HqdFWvzZ5$#79BDjd8ul=zl>4Jw`3`S#jWLAUM@E8|f;u
z3o-XRc-HNE!HpJdvGI(FyLqgtdW&#P->o&17Qu1X5|X#^xV6yVYw>aEG9aidUt9nE
zctsX33X^9ZI=PEtQ4#5c)HY0v;hdsxuAI853LTtrT@tG66xJ81_PeQ9W+iS#ztC*f
z!GyDJ>t=9BptwuhnzOs`ggobJMGlGRsPK!g@C({SY8Rt%+21!9*v)9YgdPkE-uAa4
z6LEE4RjPAQ?|xrjSp*eL;#RKRRnCFdE%=MRx14Y^rOTNla-!o*N@XQ{v8~?8!BBg)
zt@Z6lIt*`wsR&Kss6nFASg_uya}tGleNImkK#jDwnppx3DeMAm<iyPt14j7tnIxs&
z{W#$%n(z$D%5o{fw04Qraljb;kpRnf3S*|YqhW#`{vqh0?htooap;6&_T<{4&N`mw
zk+x@BvZ%K0+<3Kq32%1FC>nSCRWQXCr;G#NIhEs_d&HT=_-9CC*;x3Fuw>7}>R9L>
zBp^4H#-`%|2U^wpFKgIMo={T2KX}s9)}|E=pM@ww5b!NWXCUL=UlVLdUj9RgDQFDI
zvTk{cr)Mz#%zSxwXO^3bxjo(f-27y3>-G~-f{)e-sNXRbieeAdBI-v3lNOz0`3BUO
zLnFRj@7@laTH*{m<?`&p^bdm-@q{H(FZ3Nly%=C+mF>QV)<Kd%Q3pyi<_M4_!_Yk#
zDC_?jKC`TTNF&xp{?$qRmMkR^sfZtVHVmxK*iMX%97wzA5n>$W7=soNed~=xo=k<H
z@;vmW%lpu`(O?ZVeLJ(C`$G7MGKNym>%NEzM*v5Tb&Q9bmWD*d?k$)H-@!_Hbr(RC
zc&haZG=m64gK(FmMDcncwh8XZoOG9acAvA?0Vk$1Ogz)>Ov-Vag)dq8b?txc+blei
zQ*RX}OQtZV;n6_KNhi}EjQjrrj0|)0ye=3o$w6KAh0m6RsSEY8BWcyk4%n`j9WpVJ
zP#`zi-wXEK6P?^wWkPunEMCkCVp@i>l`{uTq10Jc&2!EidN@azMWF|h7z`(&LF|FV
zM>^C;I@(7%+DAItLpl)+!qfvx3N;(dqP@hTeZ&H)@#BNW)W`!(HHLi9_(_U-N=njS
zWN^KK_T!EA<Bj&?&Dr(afyRr)<9d=9p4C|U;fb5h@j#?K5v7^nMYVM>TzF0J#+eEX
z*ulhu_AW#BPZPXG0^!4!*Ws?ECvH+7&M_}aniJ8S()&Tf@e!3bLBm7g`VmB<C0XcI
zZ4=BW$(N93ka1>=-%^zKV@V4t3#9P+{hyn2gd$i`ZVu0sQDrnt$6Db)#swxYGe^h;
z!W%2BIkOHxCzMILB=GfZ4S#$SAB62|m*z%oW(qzt^_r{Zb1gSlH`9Or+x=BM{D1&+
zK|oc{SP4XxOzYYzF4Ecl3t;5AxiNT@fy;H(Mcv56xtC4;Fui1co_2cbQHJmhxr!7`
zqgC)t-l5Gk3`VanI}yw-1dw3PwnQjUsh<XZ3#w?2kvOJ)F7d2T$qkidj$W$odx^+J
zqGxVBo$90v`o!~zB^ZC8KL(h<^e|K}#}I#D3?_m}jruMK>8K`es~+S2)N))|E^>B*
zVd{^4d{ZqvEpBKxi-PVf+E-=adB!*qSlZrR51uQIOr1s`9~4J-OrF=yY_)9+UU?)x
z)8cFQ)%4wU+*q0CW-k$hht{pu@@D&Yyjp#fv~LK}abohenfPq&Nqt~h8w>UU{B#eX
zZwD1Ne^odQiyGM(63j-^CYjRe9^NUN2HHvI$x7931PWi=CtfM5`}a%CxF{!Ik*JO?
zw@)E?+LLd+ke|0?=ZpKqk{8Pr-Kl{N;7$wua@b2)pIH6}=&kJAs27j~c-p0v+m4$s
z5Qfz^3a2c&Txis$+D28YN^NgO6EoRZfQ@VuvTt8Q5^bV(rNJvMjL>{D<2n4m_s#aW
zb)}Vq{PaXmpEv7Ah@#GD0WAun<E%qtDT;O|YTKYaK)>0#^HbXT@niA(&+w)F@e@*^
z4W-hN$+5!DpEmD^YTPxHf4jV#!QvMr)|tsTipm3;jjE&|yIvP5e1MRw-c0F@NV5Vh
zUjv<B_u`0OgB7X1C4-Ju>+9R43Q_!8hOF>j=idJ=Eiqp1{jIr8>OH;rC%3Q$ZA)Ib
zc;9GrP|0WM?4ro#u!+#RrV4x>Qa#Uv^9wvqMUaO~R;1jOIeujzzD+SK%idV+i)I}f
zXJL@;5auBs+XM1k_aGNZLn;W&#<GRQ%*Lz((dkPN`he9Dl?a1#v=DybTw0*Eb1xIk
znaxE*xCiIwQ}LOuSHevj%V!J@m)YktgEoF^3}MY?qMIe-LzVv`bldtZV?%dx!l$NE
zj|mdCY%19`TGX>syjLwgHpvYr?Z9_!2Idv!;8ogoc$t0<mNuiXV*|F|@8yZjWww@G
zNWh0{K&6HM)Afdr{zu8VY`nM`GJh)PPxjoznZuf(S5Er8X=tP(&<05Fxh@jPpPY2O
zAlEpX7J+R&4Hw&bk{Yh{a^5m7=XLNpH(dMGD3B;T!zRv)hl;J=tA<WM#%S{wB_S)M
zh;h{mc-pmEYjdME6rKJfW5C8Ali10olV-Qgc4yl!8U=){7!c9JN&4$6Fl&RsK`&2c
zV&ZVlz4z#KbtUlE<IUslk>4=<hVLHG!<YNj74W>0k{IMLreqqWFw34{y!C<|%y0rZ
z0ysehpInFFH&7G&WE1cS#UsC-%WuAuEh?TkMKFKl)z1yvUM;Wx`S<Pj{ONBH#DpTB
zaXRA^V$SBbl;raDD3zZ;em{{c2ZPH|gYyT>5rvt(Eeg~Wa$$B+o8A5Kd34jRoPL4c
z3}68OX21wDfbx=m?6Jz~OhNR3-dB_o8n6-;=I})<zXnW7z2{&zBmE&fG>qrfVN1E;
zb7lg6{*XgJHWn_{251}sCejqYqr?C$Y|zuxpIX6ZfejpcGb^~A^VrULVduQCb6!|E
z?_+NoS>Yof3Jbijv@h)J2UWkfBar%A5mbHOj=(kqY#jo_{~?Q341}!)!d3%etAVi8
zAgo8CjSHc$Wti<7(uzV@Qyfwr$r5i+yfq+c=Px?2W9p%Sni;P65knjpSzN>$NMS6W
z8>o638g%nDZ&C`j0lfOgo{Ph++yWGZy<f+?)tuub7iDl%-=Q3op;1`yB;WQX8Hwc<
zC;^b`BJ*mbv~yNf<WRz@jHQT?Y-iwbXLPAzUI^AybS8>73QIjuB&Qw&HF~=Sq~7g9
z;7y*0pfS3|8460sH?|~m*>z<X&KjQeXb_9K-+!kFwY#nk?sPU<>-gUE;}lcILA49A
zAn6Sw6O!JDG9VckAo?urey@-2bxQ+^40hWD>rjMul!(%sR2>7v8DSPItvTHQ-R{>0
z@M@8kYl1n!>G&|9SR^RJIX*7iCLDE3kn*rxXIdQhRei425C-VZ>~Df^iD&?yR|_76
z77m=YWHCBRo*f0s(4mD|72IkrRY<3eltBiXbcdBH%CrS~14tQoI%;0Wf#2lzqdinq
zA#E8|F>}a3mDB6Oq^bD0^-zVK%Kxe}hCZuy8WQyjpN2%j5z$aN)Rd`TpEG0{D3Y2o
zIg1WEi%vL;PB@EBxQcGD%xX$CP~$PA67IYb&b%5f$(nKvmGum{1`D;OTn=NzE@K?3
zVj6M@hk6NzdI^Vm33qy(DF7Ri35R6o%EE?h!X?}JVzCilCvP@mu+6Jx_8FCv{H|AH
z=HuDr>F!b$(ve*m)QV6Q6YaNQ$L*ssup_DBwV26Tf?`1#p*k=*3-9mIRNF<$wV>UL
zI6Bbz!D>tjjthY_(EcPr&thFG1X7H$1mF}Dl8E9RZt9q7RAEYJtYdpFiWWrcz+iU%
zFl6f0&jngTj&}%T`%%#tF>8)!uP@owEaO+BLI+o)4yHbJ*_+lu1J)QCzLhm-Jg9{E
zWj!WYhGOnb?+Z@uE5$gW3oQQthh6)qGbd&7wjcLroREf#9ilv_!f#$$-~RMp;MeUe
z`~pJBNMe77V*dw<>-dh9@6{@()M}jb^cqFUqv{QK?XSH**&W>80NK$FoE^3kPfTSx
z-&07*f`pPXSXRHPr^eXy0>;L>rGF8zJLei5NqwCt52u0W;!ATrUt(5f@S}QeYy?(H
zs@n-KVJBQx^LWe3?6PCkY-B|G6Q{ba(WN8qPCo6p7S7`8wd0jyqNAtPwLNRk)1~q?
z2%DK_rDa9c_gfdN13Hh;21@;6o}d(pO!7CM&EJiUXZ7n5I+DarXa_V&ELSX7*-WZ-
z!$3!~)b!qfj**SV<pA}CcYof}nbkJhXVyAl;LC(jPg|WZUM^#(K9M;wq<t!^H*&TY
ziR9PJ)`?~7G?rfDXBv^{X*6=K?Bl$wSMs{QTBkZSOGmieO=LaAa{cr2bM$duF1|s^
z<^F#4Iz_LI1)_K+tJfaHo!`R-N_)3^VwX;x?$J}l^Ikn6s7bZZCKY4$Vf3V7ra`Fd
z#2uUH#ULz`>oeo?-JaH)G`wGFBH{aIApg;r_^>zOOX}+Le;2_Mm5&yj19;lalxuH-
zFcgNfe<X-pJ__ROqGXvaar<&oYK=s0w)K+z`ca)a7A_hcTSy2g>3g2O=k0+P<ZVXW
z0fz_M;BiQY1LSr=QBsx=h%jM^>Iqv1V;Bg^aA@$g&r=+yZnpRUhwUryM1_Dk$6@GW
zvMf_FPfELLrFIadbs|%))t*LCCdrb<W5FnnkS7k0!<XHj{r0|nipH;?k%UoAmeB>n
zf#3#7!jKZ7yE{SS*<Q%n>r5D>u1@#M-;9~^P9r4t4hpO5zgt~V`z(o&?1M<yPdlu6
z_7mi`9Fx%`lQgE3<FcUL*CDgip>ul8=E>|Hl+jpC(423SS$v}|=E;wm=9`Bbv`coa
z$Rhkl7TKsYMSf#QS44?44J8dK0{N(&i5)bfacRW`<_m2gU-IiX<~-+$abn&z2>pBz
zS~mV)KpgT&SH#o2S3GfHJda$PQFSELJcgnG#B>W>U_YdLfhqD(g$Cb1D|Iua&R4il
z$tl_-O08$iM1VtgmAWcjWqVE~YJ17oHxx21EOhD+k8i5>3DL^)dtyd-+KUhJD|0S3
zH?7DkFSm>^Oe%>tG%n4{OwLb9jn7O;%_}i9$}Enr$V`bZE=epZVT>oJ-V~}nIX|x?
PGp{ri0OZjmTmS$7Y<?Pc

literal 0
HcmV?d00001

diff --git a/default_12886021134293742414_0_17838.profraw b/default_12886021134293742414_0_17838.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..81924795eb036acbe2d3700b9427b727a5fca01b
GIT binary patch
literal 255848
zcmbT<c{tTu|2J?UB+8IkQHo8<T!zeqWKJ22ge@6Envf|&hR7V5V#}B$NyduOU`XZ+
z8Fr>bp-j*7+`oIB`+C-W{jO_WtACv8oY(oR_h+s3UElBCn_Hd^Zl3O!Hn&s!&oBOe
ze;uIv_dopmi$2@`|9jNmS=av0zZq+~`LAET@zy(&0ya0@2_f@D|NmAf|NTe1{{6MK
z);N4Zs9%s%>Sfny%j@;`QVc%+zrSj%Pc;(_DJVDcF@4b%of!=LfB$Fy>z6Ii-zYk+
zaP#w|y<3#63y~0V$};?SozTDbU%v%)g1^wFs_h9E>dKK8Vvx&<Fty}Fbl`eiw>>G=
z%k#O)(bXoT{`c0&o>Tvm8~FeHZ(reh)ZbAxotC+m1e{Dvhkw7vDf6l4i>K?xEhpdF
z?IR*OR8XM|9hdz#qUR?R@8nf(sovuui|D}lBq%4U3m4yvsL5zQ+0F1neZ>SVAK1}t
zS(l4>(rvu#tr~6r)mgj>(^1|>7yi9yWa6P_y<l3Y(iLA!r!#%0#;og^<iPx(Ay?zE
zZdpvH>eGu`H)6L*B!7BlL1IxHSTV-SM~EDrANuyzUE>#CF2%ov$W@rmg~V0m18Vm1
zyuGj7x?FfTeKDQ)jcgBGEvT4k)qm(5_0mg|#dM4%7X0WOf;5?SIqSuC*u7aX!pkQt
zf0h6Aq{X%&3Bi_cKW|%CVLDr=4&3~8>A+a$i!%{9Mhq0bm=2HCcP1PAUT<!%BDcBY
zY@V{1&Nk93?R1&c4&ba9;^iZ8PsBvBiRU<QsxTe7sP*Gg3rBTc4)>gFjQqani|It0
zkhYEQ<I3wSYTI9SAmgnprbDdNIma-dkSN=-Ax&^PNL(?%%V%5j&|J(K*9h2Gt1z9q
zrul7lX|}@*zPHtryZHb5VmhY7t=BJG8meTu?q!!hZc8DH>3r>5?3F&pTnwBQeY|{J
zjHdbGr^ot%Q-$fY(>T_!iT_+?o0Zm5*a#Hy#dMm_P(N~i`9KIbvY1YV)bY;_Jl3<o
zS<%DGN6sLv?E|~}bKq2AI<{(JYgZiR3Fa2Bs8{49rF}6S<#0>&Utbsl<Coo6%Om8Z
zWDy<s+;ZT(>UV)}7hAh4b~)t5rEyUpI@Hj4V~Yww&OA>v0XRJ;(Q<~Jil6z0=S3&y
zfm4R*P(>-njPfxR0VfR8X=xS<Dk45G9&s`Fq#54TY=h{)=bzK{a(^Vfb?Cr(j33hp
z+S%sN*lVBx&SS&6XgS06Fpmb!ol4j)Bl7);OHg<2LMEmY_+WubidQU-<&noZ_8z)}
zHki)!-8Te0$`d6DWuFYIPQO>>$8=7r?x(-4N8Y><+jbz`f^KQ}1YSP3$)7Xm-1F&x
zlZolb?#XAPFaIq992-n$tUBtz@xS-q0*4>d(P|2yVfoD437laaynHGxp1kUGSd#@#
zCZ-d4FF+}XSGf;3HkeMy6*0G*?2I7b@MAjFfBxh-vcx{FI@iuxQ4+*Htc{n?xA5~D
zcNDmnS~we7(``@IXJR_{evpP7?-a0rdTcNqb$JFs4ei9QpdNlq=dO#v5mIN1%=(}e
zXVs%b$zd(LeAKLt7OXh%h|DG=N;FEH)Xl_nD!W>z*X!kMfn$T|Sd_<{*!zY1XRgTh
zSD9~w?D;XB^{Z?PH~DSEfHQm?FQ1F5M;Yr?hA)AfGcg@k-NGBgj&c6~<b&wI=LC7~
z=(D9q&Jn@52$;^~4PX6pJ|z>1o>aFDKWE6yYog_|6*_N>p9|wTL@P-E_ZMx54tyOv
zn$?$eBq>BWjFzS&-h<(8ETRMFLmRCi)uQ{_l4`YBwKOl&-we@#>p2lET6VTq-~@0u
zF&&<-SIQ|@h2??Mqk)z)Tn|rX<IZn8AFBf=8Pid^-`*fMnN|lJGeie|uI1!k)8BVJ
z{ZC|p`&J{p7n%e_2kw_dgO$s*>x+fJnODclhmLBvvZ=5o4LD_(P7cSb-*h_JMBun%
zI(~cYw|?3!TIlj&w^_E<_(O3_XQXN5g@CAJD5z&%4J{uUXq|GqTT}`RimLLDTF2UE
z#4h$AI`BL+%_>|Ovaq@e#+8idz<sZ3J-B&R+5UqpCv}yf>#qbGL<g>CJi%gC^4Z|z
zc+^`4`ICQ1{D=;C&JJR-{Gwtoz*E`>_Ay^X2d+or;9~AahL2~%cwQgjo{hXCi|O2s
zo%q7uvo%<gab_mx&$d%5s%U+O>miA4qw%^ToerETOy^$P=NKbTk91xo*)Ij*1v$Q$
zj<tr2UtumUJ#b_(9i0z4R?`=@3IJzC1uvgQ**{k!`P7B~$p_Q18DZF89gq<R9A8Yw
z+P|5>$=#t5II@_IAEngZaseR<;H)U)<)b{4Xw$Xx&j&fa@X4yzmn*9<9h=AseH-OZ
z!NBpwbgtLch2MXl?gSiJL<fGp@h-V2wpexeNyx*%cR!XkHkc3{czs<DdBd<%eAt3|
zD^2o~*momsN}K=s1@@Ky?JMlu7GGR@OcCf0o*TzvI(3{6Z%*^d8Un`<)2XqF`YV07
z_8xft%!KKTJ$^lTrqli#c>dF-h?WoBuVv1>@1I9SEP+G9bo5uKtSmzBegRGZrc-*|
zg#F8azuL%ZD^0I~3$GcX1NYrp=k6qL-P;-9aAG>=9&s!=Og*IrPR}v4oZ)(g>Mdgl
zvWNF(ZVx;yLzO#~jOoN=m32Bq1m<6#vRkmvR`N4LbeN$9GpSwu{MDS76PVAq_2l*Z
zOk!Bq9tI9-J#apvCf{q<rmoTghZAvJu;XB#-xkL2M-QAH1-yPaDvX?nHV8=oPBNzB
zQ!@QHzdk(D#+{csIpi9n8KPqj_3Mx_`<#AtQ1Pg`-0J?47Xm$q^BF!Lc8fJ#Cidk^
zbS!tBHgJ9Al8NX*Z{MI8*g<$4$u{)l%$1lH@7nR^WJCw<*M&jV!~<^2d)QCBUzyE1
zo`AaE!TU=<Osp4fZx3T`J;&4}db2f^+)Tu*r-p+esEeBA-lE&9g2uVj7X(CS2Pov<
zUt_AAo7?lIvcBgN4ey+pi!?-Z;Cw>-LabQ2e!29HoTnP2VhdqHbZDV^EPn4QG*YRi
z2^Z?LH}uZvr9gDx`Exl&@K{{Ip+{CbvZ)fi3>{h!*C~8ouzTcXZm$<rnaImnCabT7
zjQoi8!1+|(J>y(w@QHEm(;VsG&UKez#Cl+7=GuMEnv$~?S3X}b8;vkOm5J#b<l1=q
zd+bqMwzt^c--Zw3Z4ey>s9)R}Izji3O2iHhJxC=URdx17bl~R+W}m1YlC_VGu|J-m
zdq-gK&_;CNbHeui)#@67iq(kxf<WR=#c%wG4xDqUhHG=Zf3JD;*_X`E>J~l>BkqUr
z^RX*DulQI@rH+tZFYqLAJA~FFI`Dj+veGir@Ss1_a>vm!s7v5y7@`A@YyM71?uAPQ
zlbs0*B{e!m3)+~@5A6&2y?m*{M84ufF5iqo=`fwy?PXka+vDT3<Cy(~(k|_4kw?1@
z!p}FHsjPWi#v>aUi!X7X$c^AALv-MLlzoQXtvFAuJma9W-w|e5?T+Zc>q4X3ESQbu
z4d;bXm;K}mPsYL!9k}l#NwIQG>zkAxo~4=hD61J7B0BKCYG$x%uDhew$H=B}vuI%I
ztO}w7uTwn}x(DPRC;L|~<WHS$|7pU6=<J8~4UXSL@*j$&k<i=PQxWXxmSjW+?w96=
zv9dnO=Zd#uJSTW9^TkP+&dt6_O}A`D>*gb5%U3&6bBUNv@Zk&N?-Tf{0=iAPf31Au
zBw#wk$0;f+*85v!6=N2pbxWU<<<Qmzy#FXkc?feVa$Mf^)Sr@PtWl-~(SdX3pP!?v
zxzqLBXCS)B@I`W37^ZVtNle&NYEV@`UUNrlJXu2<(ShglMUi*ZbNvsuX~-V+kxWdd
zmqm2o^;Jm2H4@UbbXcf0O=VO1Clv*v1J|Ro%`DI4;)-@yntps@lEUwKS+st^^*q<m
ztPu4ID*Tn|a5svX&btcHf%|2$<BamT<J&@N+ID7yjqmLBMReeCeG-<YX*}LJP)B=c
zH~rAT03xCT?;D5hcn`2M`ciW!^quQ{L#HH*=)mWBJ>MTvGMB}E-SjknKo`dROB~UG
z^J%(E@OOx-fBDh=qR7=6YuWjuX#Ikn9YagfC)KL5{(iU3sT3LtC_{9(q5aUq>b&Ei
zZL$pA?FPNA$0Y|*^MTJlG7DDpG=p@{AH0*%(+qifj|nj!`1&O(vY_=l>A_}vN;7Y~
zWBD-xq66m>Zk>8OJjd78e1=1<zRJUzjF`_hD4*%sednHSbr!B-O`Ch6BX|?lf$K3Y
zI^3i)v4eZXr1+luRw^YDVm+|)km=^PBk}V^B6r34d;iq>5-}aQNXAjw>!Ke!3(kN0
z-f+B<fat*cd^c-yb%bti4#(+xOVl+Y?R1C^JTCF7dwR55(Jl3!t=SoYo~A8F@Yco0
z;rT;4*)1aNsjpfr>qDc%5S_hH-_NqdSZe1kIL3Ti&$_qk?N@Egaj{AI6}|2qT>pEq
zn5i{^Lk2gW`O;|OqhD1Czk*M#@6zNSz|BX)Z1b<HuG2~Bxr0}EP6cV9=0gwVGnZaG
zIISbXNMO3U)8g2*kyyl>;p<LTZkMORg^zC@8)l|yKJVu?Lv-MIs1-|QEj_?jYFA(2
zq%2MoCyVG1pmDX!e>x~y+(y&iKxlkk9Wp77+4qmKYHH%`40}oA-@K1s3$U0+tOw5L
zAcI}BsaH~ockqbhnq)6c6{hpr{d?y0Z>Js)Hp-Gip1<h=FrBoqgHjKl_-%sce%go*
zyx#9x@U_xs%FY0X4%69fbVX0_?EbUBX_3L(H`ZEGHts(b_x8KuHyEY4Z6*xU32QQ@
zy-9aOyT?jH*pIz`KpWEu3NZbm8N1+LYZBL_zO*z-hw1pt@1UZp72LxUp!@EXp7WCy
zX}o+mM3QbW>}oh@n5I+t@m_Rc7@`Bu=i(rdgLYqP`K1J3^GYU0{4qpy;Q7PB*4lSx
z_;|-kzVW!K`_3awm`*UkZosh0W`RMdbX@lA%+)q2w0z)kRc^|Av$EWu&?#Rp*yXrW
zJsHt~$F-Ww)uXY?H0tcuKCfeImNI6TPFQa9@o&PB2JNf|&Tk!bSmMNVk{=p4Nf?*c
zY>efYp8Kjc(<6zN4?M1ensV`NJ{zxRY_i_+`ju2BBRcRtZ<-Th6RK119KpIdT{ZZm
z$QRLp>v0|Xyedf%n$wx<=<6YHQ%e@nf$uNWOuy$$<O=ImgxZCx#J!NBLv-MJmU=4$
z&noWy-gPN)Ws;UTtVIGXXSkk8wj|@**Hki=uZ}Jm?9LQRMs(nMZZf1!j#kB<?6q&-
zWLa~mHA8gZ^ZW+OWt+{St^7tJguNbbh1uN^9k?DlIUQZD(fM|+XnN(EZ0{a%L<hc4
zDK=vt=?I++NHeh1n(WUWrbBe#dM<U2SYKFT{kl`@H1FI*mS~GOTEAfDwf%evJ@v?$
z;xnsPl!AXUgkd^sYa6<HHNiKxdEcxUvJP_7Ms(nPY}_knojy9#<AG4=Rll@PJD4yX
z+O*~O_nx%WP<*_6F>6V`s7DMhpOXz1m(7EYKc|Rze3s6^EH)X_8EnvbOv%d>(b&gT
zN=H3%$PCkY@N+Z1b6Tb>`_<7P|NO5doQMvb^R1}ME20V)K77&kd1pN^`g`~=UOxN{
zQTCy;&K^xxx0SuOoc@)G>D(SW!bTrO{A>CqJwR|G^t%nB1Mkl*;$w0(9p|0o77w&!
z*6_blL3H4CA>gN%ZECZ8+^XQ^(;qs2IVlhw__@vbu+6SsE_!;|l*orGKRW4G4&mi2
z+vUk)fB#TM)SUbkxgYo5S0Os^>jk@GDyFQ}U5#8<?NlCTt8Qc>I&eNw<@p4Qu>kqx
z#c3DsX4NPgL<fG(W*~M<&h?_^r2c8KI8!qx2}48&u1CE<`i`dOmt=;QyP1h|k}OP!
z4t!sksZ^HLS-E|Aoa5!i+K3J<PDBT;Cs0@>&W~l7C^Yf(n74svZ;vQi-{E{_r{dyP
zj@hzuiaGt%_trVrg6P2Yn26lk7RkXZyl~C&&YRVgvtfu1Jf9spy4kO86;~E(Rd%~!
zrCuF?=)m=Cn|`w(|K+<znXh^`yWf0`3Z|1id4YSnv3gS2(6abvsWl%3rqk8)G|!KI
zvTdJw54E>JTS5Inw0^<kGVif1S9S_AQ;WQ-K|P>k7=Y>M=icqAKIHexEnd<gN;deG
z3a0b9^KnyBo79Knm8Y~#&7bs9U^;5tKUvC8_(bxB?-AEqd0A91f|d__K73Td`_Y?~
z*&^78%{JoI0!J*O1Ly30mDjV-<7qXOU5pjmpaiucq66=Tj+_#@P5vvXwmR;N!^boR
zWf2|tdRi6FaCJ=Quj%{yxe~$hNvafx4tzf3Gwzr&U{a*4QjYC9WL`bpBaD_aoDcUG
zy^!+I4x4Aq(Gm~qPXr|+I`DcwrF1teeUz@LpoQ7#Y$`=VETRL~Q@2BIh|1=8tYG{1
zgH%rE1Pu`#c>X-A-grEkeJAwcJrecjSG(Ex5goW+s;4jQPB1L^&=n!Pbp7zJePjY&
z&I*+^+$FkFu?cgpX}<pO<Rc+E@VI;gAN`8ibAg(1#bHqY2tSK2q66n_T@YgYZ91dy
zRmZiw&z~;w$s#&%-&bpSa|N6X^hW2FtuJ~euZbf%a6Q8@Tyz_Iy!?Z%i$=W6w;|38
z;pJ@avH5EK?z!IIS_WI@D@60l5FPk@=r+1BbA*qfef8LNT87!P!?B3Ye~l}B<>N}x
zsbaRV_2ZSX&Ib$;9eDro$n9vE63EsNTZz2-H1493ETRL~W4X01RQqDBGWeY4iXdLj
z4n{emo~48$#lxhmE#Jzds}LPHXOlejOwRpov(CbIv>vsoF()HB@VNdYBuLybW$OZt
z8KyHE=JLFdHuccQH#T9{Z3>GxF`XM$@5omL&y@hD=Kx;LY&T+V#7lA8_<L2REWc#h
zos8+MjlP#V@SA%YIA)m6Zk`cIpNgo<x&ot`IVC@yabh|-7G6{DH$|&})3YBhA4-uX
zm+eKRA;3w-bmWB&5hi+u3xH#W=}c7R4}I==?g|`EOh>!uwxr?{CO6>p2;k-8Z@3XD
z744l1oMcSL=l3tCvOmptfn$d0%$!<lP+D8r4;)TR$2z%$=db+IJK*%}!^>xJ@NxJ<
z#s+8LBx5=onQME#*d&Aj#|+b%_+?tOJ!)(la5ym?8qV>QGxM?v!0FkGm(P!+n!tOW
zokGA##&i@TB!=sMa_9iZ4Aa@Ed}jY&{b*U>aAG>VI)s}eo~s9e)5DLK&-jJz2XX$p
zIDnIk=|o7?eLZ`8Xbd=Jm`;^(-Jv{{_w>Nw#B}&3#rdRq9{gwj;ls<PPl_l%^E&Yg
zs3#fIQ7@kE%IC|?1CAM{Q%%-%Aru-(0EZLP@qb)#SyMW^4>&!0HvjbtdYS&eehZ&l
z*!U;5`|bUf1Ds?`M`d4N!8HM?NZ^=ZI<HIh-OEGX)BuMQ(>a>qHY0Cx{3CFBcH`w^
z5!y+#qi&xBPBNy$&3;~zvpvckIA)lRVx!RVH~&yi;BaC((!mddR)i`nfz!i_myg}T
zDEqBDq2j<v#&pKab*)x|)02Q>hUo~EUp=_!b^01`I58cGihh-|(OY$a)5C+84=d$I
z8jicUdCV5aJ(g3pTuR1tHYJNYoPty;fn$d0aM~}us%et6)6f2G^P6JkHYcWIn@yRr
z&$^x-I6d5W`2_Axe0j0R=NR~YU&)xxJHm)!T6EG0;Fw`LMG66yH|Wk(g6|u~iRozE
z?yNjYeV-CIJzRMCoTK^{nqs--Gl4pxu&r9eDjCs%pCc_Vo;b<j*Kd&+m&<$DN@2SV
zrZcwwf;z=%PvyPQa`U?q6*~xs4t(8t{$N+}*YM60TeCAWi<$qB$((5U!1wPW>cj&J
z18*K~?3tGDI(Pq93!($pqty|(x@|P;=rKuZ|JqZo0b!WVDJ7we7Ux}@pkLaE4&1Mr
zrOf<2EGitJUrd-z%$JghN2%W@LBD!9&~k?JF>OCe>vJ^O5#*eV>E!PneRlS~kuk{G
z4Aa?l$x|%Z^gJ8LnG?~0bCyf|dbsgg|2W8bm>n%2*eTGi_o=v5@)G1sLUiDqcirWz
zV|>UN0CFZ`I-b`zBSwo<5<t!bOo!u-Np(Wu^97JInGG)=ZVtBD2SSTlAm=hn=af<I
z9@|peaFDYvq66o=b%(S`!Imc^kh3hNV=*Bxdh}4cD9Cwb7g|1WJqsz{M}M0<Y6Ur0
zAv*9p{Oct7$U)el0^}Tk>GZvw>r62CqzZD@Ms(nDoj9?<`!wIP4dhIR>Bu)Qlj->Q
zoI%bltav$pjJ1yoJQ<n*at=du;GDmu7Y2WBp}h-oHpFyZUk?tvu{LK7a^^&I;G8E4
z?*8A?2I(WXp7yYy<pW<&uh{+2y!l<W0raa1(ShqJFDN|ox$4Ih=$9|1v$jFe_dwQo
z8uUvR(SiF#f54XzCX>4a`bB~1<oXSLjHQ3g0s7U#jFvN;&ojY}Ph#n*dZ1rnhz{JZ
zOU(WDCT%DBK);BH4qVTtfyQWubsI&{F9N2+@JaKmsJdA)=ogs@Eg!gF{U0?{BLYu+
z1pO+*bW%K)hOY6IHi3TmB06wBt?T-`)h@28gPdhCoj*4UbX4wzP|u2nXxF%=gskku
z%jfM$_qUWZasHrR^@t8UF3m(Gi<O9XO`u-^hz{H@?%Ur6C+@h-fqrRYI<4iSy@{2#
z0zto+5FL12X3H(a@htZ|(66=~XgR}<x&9NEu5;VkLC&$5&R)i!k0;N>P=K5b5gj<^
zJ`I6KekISIft)!p9a=k@=i1F4yfg-{PCM0##|<;0<pbBVoriK?zLAL@=obmmfpg{?
zf66$ou=E@3heSjN-Vg5&<dQ-S4?DR&V^}Q7+AgY%=)mLB-|)GprZxW0xrGVQfybrd
zp5<ko=J5;6pEd@xoMDH3@`2Iv@1}Qowl67MN-EuB5gmA32YnVOo;(~h0Q1lc(-9OI
zb$#*ViyxSW{FqM79nnu0T`zqF^N_q9EgyJX7DCo%E-CKX4d!7Pq66n#S|JqOT)wsf
z_6>JThc<m`T&+yj0K6YS9MOTt#dK}n@Nm*yJ}`e)=+W|l$Hh0)vWt;^@EDjsRfrB;
z&)3|{EYo<ob<%#ym*hZ$@&H5!u4gDSj{H(p?11=&v`E9az)=-UXP<qEnUc_28JN!$
zhz>k1bJ-CM?!yc3z<h4mhL$tzEYwJ^c8AK{2J<i$(Sh^1emS1K(JW37?1zSk4!j?-
zZG0SO)-=BY=Ce4W1J|RgY%o&l7qcJC!+AQid|<~XP~zU(%&8j2o2=7E@7wGz!*rsA
z8h=N8u1f@ccSm&Ke(6)1EXys?uYkVGVmfM9s3g32vJ=2QMuF+n$hBoye81NU=1&VP
zUe3Ddslsy+-_yZ$FbvUw^9kVlI+ge>Ul+_DLqrGeJHODQ5tZEIa^UA%F=0B+y_Wmy
z`^xU*ozF4rqS0Y$qruCE_Bhe_+lzL2a1M_}bl`kGrG6nZ-`c7L)`c0O1Lt$Fx9Fn9
z%Ogd4?8~EqSLx(95gqvbnNF&S<0D_xjKDrm-inqFJg!qNBC2x!ZEwInUxw(w;|ds3
zTnwF|_zU)VcT9(oDaDU4RID=Wrc*Cvbnv%0uCwoA%zLMT4`APzr^d_2@?Q2<KZP^D
z!M;(2>9Dj=9oZspCk@tn0HOou+@{f?rSwF+8LU$kOvn0$n%aA@lNMk;Q(!v&#p!R3
zx;_>M^RS)@FXz{GnY4}1l6QlCg<(233+^;$ZRRI|ei>pq#ieX)-ifvopkJJb4%{#E
z<;=5$Ij%>bUp<s)`M}P@wEVUgS+}G>zmhSX(JQY-Z_!A0fSk<`9eCeJtGV=JYPuvE
z<jjxhgwD79wbUdZ1UZwp;N>&*#5#7%(e(!)XA-7UWFMHq5T5bRK2OASXdl1a8`pC|
z2&@YNq66oAk}Pgypiy@c^lP31Eg#tVed|G4vi?^G(61^?$3(o;PEG3I9&r8%z;p^5
zG7gwUP22!|*G6>Ub#e9Vy8^@P*W=*)Lx<?V`6!5IO~3K(GXe9bZFA#aLI2kqtDrxC
z>*;Q4ylo~#B!Tl!ET$vht3h#W%eSMApAQ|$c`*=ai0M4(q}a!<rTG=?8%&r^o}<`3
z<FA~xU_Q5PpydPSTorrWyPwKE0?g-ROvj!7kYLj7IZiO2Z7>~)BZ6n!p6#gx^N@h(
zz<u9Y<Mc>gz3QLmNaS_2d|)Tm)@(XQy*mT+i-hU$iJDawjkOhlei0EJxL<#Ex1XAi
zWgP?k6328%zc%V;!}ha-eyyyb<pbCA#n@aRG>%ah^s64xfpdO;a_fv=^>_hT?*W)j
zRsCbR$El6XpkFGOj+dKszSFh<4bU$NL<i2NI8pvHA&WmDC@$7`NBy?!mQ}o*YaZl3
zeKz-(q36>V@jF~wXJav)Gdkx=wK(Y{iJLRWe!BTwF~fAsh!jk_X|y6iJ^Yx?07Zdl
z_!rM`P!IVpUOx6^)ABT0jFq6CGE8Udg^N=0kM<n~_4r~s(#O1O39@`nF$E6B6hapl
zRS+F`UAXkV+PME=eIIZrFr8yf5?}HpTPT53{|7B+xE|^kFSM9D{ht9R0MnsYn))W!
zq(B246->vf#+Q|O>vAV>C@`IilIvw&+CkmGsb9g%N4jBRkGlO9B5(pQovI@#{vU){
z7l5OJ>0F*<XuJ3;t`#^Gm`+iF<8x;g;YHxoFXQE-%3dnaF0McYoB&M6ZKcXU_11Sr
z;HY3a-)LAuzyA5A0~`uW=h)9YR$A&88o;Sv!prCJJcsAIWo1R+1YkP()Sg${71$+m
zshrklgWT6uFdfPqN0*BVQB6*AJ{wF21#KuWoo?v|SIR{cGJsS68!w*{yN>J^2|LT4
zs9fSda@|`e0Mq#{{#(sL+usK`Dwqx>YtwJp<5eQy^PUu#PH2O`l{fVi$ADA+3ojq$
zmA1j-W0tw#^PT~iPUY?=*5<W+Gr&>7bS%?%S0vF<Q(XBFyq$Y-$9)P+M~`9YWZ&(d
zB;eF9;^p(vVa1KM#=<FvMxj_a*TXsh(Se`${yh0fBxY^6+*wA?QhR4ylOdu5pAV}`
z1D7~vEu(?MiRp-`bC$LJ71jmL@B&&sa6LYa@``DPw=w{Sgz1<^r(YcY`{fRB+%cUO
z=d`F_S=bH%M;6oJWvSMlIu+Id912Y5XX1ocvD`U#;I#b2%eiQ~Z9zcxiZ^g#F`dcJ
z?Bt-bPI};&VLAk2KcB^H%WL59V>(T-Q|hXfY0AJM&*SAYy%v0nmsl$goH9&DF=hM4
zm%F-efa8nl$nE7jFv{t?12`&}&TH{q_rqczrvir#)5!=J_p*HXRsc9{Kk#yH`r2}^
zAoIs4aFQ{d%i-~ta?cOl2cO%rL3H5z3%<K*WTIh|6L9!39lz~7_Tj@P{`p+(@Elq`
za6KkZ3?f~Q-PQ#4WMVqEQZ1C5cD|Jajt!<GW!G)F$$gUwIQ*DS$n`S^5|+C3fHORc
zmrud+iihC#Bj13NiRoP2ong*%y6FsXY%m=<ZGGb6mf!z;p9+3VhmHB}AO7>EX`r6r
z8N7TxdQbbbD79w+Clk|Q5p%jEV*KY3aBMK0R}&{=zV6T52ONG($Nky1_I%EsMc@oi
z<K^Sk^PH)7m#YDAGBKUmJrr(ZWIs{h*kC&B<4$U|Drf%L$M`Xwg<1BJWg9^=P|xrb
zUOw6l`B$lfpZ@bX)=W%iOe3|~HL#Bvd~VbR(~%s=N!c%()NtK8?9a01p_lxa&b6^C
z8mb-FdPiIgK52$`H4lHs%SY*}m8|P+M_%A$Vmggc&510g<MtGb8A=YF*Jy1p9WG`s
zaTWpftKjpn{Fsiik9(fT6_!)L87AZ96CLohN50$B8hjo$6Vv(HLS+AROSud<HkeMt
zd)H$ZyOp<ze1GB+)SbJ)kLf(PG;_NwOZN(Jh9~jz(LdB#CF5N8o8^(mIrbj9gPE8P
zU-7B69QA&B;Mia~Ix=xOd&SxY3T2-Rt4_aH<;Qd?=t_neGiVP1XLtfHpTWaCm4D2=
zH@Nzu=MH5!f6T;msyjE%SvBR7fn$T|6gs7>d$H<jd2T(^TPEV+$&cv3_qnVA7o?wf
z%g%(+(saaoFx(}NqvZoT#I#L?q7#+0z$wFYYR*&T={=%!1dcDJ!!$v4W1?H$4LB;8
z&MBj(kJ2>uqyUEw(~+s3j=rg2auqmjV|Y0$-uP0nBl$rzaFQ_{&#?>3zYlX20LKQ?
z3F&Vw*iBiX02~6QGqUD*>Q%S1IB@2_;pKB>TR>XU9^pU0sls#)OxL(R*2>obP5`Du
zKlz%sCy|*SINF%boWw)k@@w~*fy0F9yxo0_yrue79B_I@@p4XXdo3B?z-j@UOibrG
zPj&iB^^a`8A!0g-9VcFxeqJ^OjyR^XC-CW^Akk(D;H-?`<r5fD^n-lx$O3TcF`e?H
zr_GIRNBDpfhUpBK{OGqcamWRZA*S;?L+q$za?n5XnG@5IC9SzPaq~`tdWMJba&|b#
zMVjEd+5#LBrgNLhpT13na~p8nF`bDQzoJC8&5?j3i|M>hyTE@%$(s&16qrtw%!tvC
zuBa22g+~nLT^6WYhR||`pYv}K=DU<er}PRq$(YXHF%!Wv<bX@SA!0f|>w~+gTW`Ms
zjx44#5+eJJY16p{ICPj!Qk=rcI#aO+!0Gvlm$T3Nv;zvp<PzYJFr5VE=bzuZr3?Va
z7t@JXU+JL^G*twSHm2jYoLjC*Q^^J#PE5zt@^?iMtq&b=$b)z}m)1<L_Nr~f0H+Gm
zVc#vTk-pz03OHey4%@@aX%nvRj{(OF(<x3Y3;P*y?gMZLxX#+_rPE9mgTPrCz{|P*
ztF-WH{7YBhv|u`(Ykd3e&D(wgPBNy$#3^^mB4@i9aEO@B>EiAwlMeNE;K*V+USIf6
zkH+1V01h3dbM9-5Q8b^`Kl8AsAFp4>Z+u{recC4r>LFn|Ma+>pTLpJK297VLV{=%>
ze$1_Z0yx^3j{UBIc*63leBf|mI@^V>swLiZIRhMWA70L@1xqJ*&6b0V?>7&dlenp>
z5FPlwTZ&{j6X`~f5L``@WO^zo6oBaz7O-UPI(xLq=MqI_b!cU^Hm1`ytRJe|@5DuG
zHP3r_FD(lbq65F)H1t!+RF*FPwV<Q3PC&Z#LR&9d&ahL+D3x^fwruUChl1j#l{D33
zF`e)y_ufqyUC1GwTQ;^zy?xOT(<#3B^~$q5Vly?Y*Ka+1aKnoU(Sbi#yI@e!-p#=H
z>oa@Q2gfv_@cACJd|;>faO@7|Rh9Cl7s~h5wPwG!Av*B+@K}T@!Pwd1m#A^A?2(-E
zo0*6XJfFL^E;y)XtEuHbdA@xpi#>;k=)ips$f7i*kUSh`I5a18;ysHN0n=GGtl6Qo
zv1pTjo9S7jqvZ{9H(Ji{&o78OqLOTW(roFOi@QptRV-H<q67Eq!4b{(W5320hojPq
zXn3{w%McwnA7?M6t|zBf$d`7?4v9tc?RCd=RIko{*H08VMcTY9$FHh+S{%`Vf1b;`
z`TgsQnT19tGT)@Dy`XqPhv>lbXVGhT>y_tek8>~XPCYFD<Z{~=w0^<!xyLN8u=_|^
zcV9-X$WnN;TPCJM`R-^CM_0`;)4Qa_j*!nP?uZUNu6zT9dPxq>^ub%k@@o5>M`RHl
zc>dTBx6m1u8gxo*TJ2vt6*J0-=)m>du2T%tyq4`*8P?tqlKdxUxC<?3cpm2UnkJPm
z$M(q-WvWMUgbrk4I<rMiT`7GO<1~iC=YA|Yp0>esq}X1KvDkH&(B@fKSq3j!@*_I%
zdKbDFO1&KFQVXtwbcha|&ylT%HQ)U`Pz<hvEuZmn{$B6it8OKw1+If(n2y%OnO*JY
zh_2u|sEz5EUP(0Jyf*F!u7h-#&i)(3!V1;2ghIuToP0^&jh0Tle3HLp8ON9I$($Pf
zG53a(Zg&`>1Fws8*MQS$%HEsh-_j1~CRO}3#B>HLe@8v+60qERI?V8|&om7uq67b&
zzIRdLOzC26nuc%o*hi5MY4IaE?9k^41?5=!E?30eCf_%UJDhj-EowgSK0mm%?UVR?
zugu2gi-DB*;CUOwdbUIL9P=G!jy2v(C{ZW>c*@Mb;Ew3PKR1y6`&gSnS?R=frXzL6
zZ<QHP>w)`Dr*@NGJBe#QW5wUl-LHpO35fN;`}4k{iwd+_j44fzt~R^~ceSNMbl`e?
z>66c0+VyK&hkH?j6#wv}whpv)!3^d6a<9G@x2Y3jC`)=@<Sn5NCd7K+>#2`Qcbw0c
z`p=(y)6TwG-z_|hSPwidOQmzf_dIMN77i>ke7<S>NQll(Xk61AohN)VcUa0PND3Rc
zI+*n!I`ICi_)6#FfXNhJsk_UYUoR}4B_ld;-vbUXE<RYIcxd%@=b204X6?R+4m_WO
zU+Fj6$sai>did~DYMW4FBBBGY)A8;z_765w2Sb8l<zAcT8mJ&T@O4nFD*B2>LEP+6
zyZWsK|7jTlrsK@8S28tO;76MN?BXedq<AJo2cCy_waDe$t5@tYhP)%q&5c`!+tJp=
z4ru<^57!iYXE}bjcj=b;x_-MP9b!Fj&U&4^rsg}wU+r1Eo0{t}v>mk`cpj$Br${7;
zhQzj{wr!<L*T0g9I4*d71z)lqcagi;KeNr;&7Hlcl!)mtCskMWmh6&rAEo8#u>2t{
zj_APSI;Wb)(x~+Lc5jQQ`-HOX#rZb0e!-5+z$Ur<p?9B>A-i6pyrX;>q67EKmG{aM
zbBeNly}@Vt65l3G!w?<#=LWX6QkvU$7qFUfS;$Cm^L+?Fbl~-FlRRALSaHci%;o73
zp{U*wcSHvs*Yk4S23_Oav>(d%wIoI<-)JK`@cOc2kUvzE=|rdVE$vT(T!#WDq65#v
z_Jjc)yHuL*R}(9~Su@tS4}U`IJN$F)mkcCZP4-v&x(RVbhH{=evx4Zr^Cv<vz4-*E
zvsamU0pGQdQw>#^&fpA9akGBBt8m@k+eUm;wZ4cB+^_Ca?;eJYHYodj-mlePGR|g*
z=)mVF261=Mt$nRa?!#?dMUufKHi!<~cQY~my@Y%*irMWk+j6_J$HXxm$7oUaTW4KL
zN2c@5@26;_P#`++{84+)$dmWOR^dWe6_<vOi$u#uwD|+CueXlecN8W)kGL*-crZ%m
z5~>g#_&Rty>*7tfb2KaQvc(aDJv-Mj5gqut6Q6g=)~3w)-tdUt{q5V{WTTEt7`lE*
zUH@U|*OijY;9_%Q&9Gmu1u<v%9JQv9w<9UQuW**(Lc<hWA`R;Lg3mu&4m;J=gjxi8
z)*F!3VsBgYAl9=D8rR^C=Y46-Bfq%4irnUovw5OA@OrN)3qPHz@1hQzWW;)4hb`4s
zPj;uLH*m}_9cM-2#|L$P#DT+!>2!q8elBIPz66{e#CZsh%U0;n{qBy+oq@k*zMe=B
z2~NgzcG;$z%BmC#I(#^3xxCgqVTS3fIYc&g&)p{oxX8a?8)kmZiRi%l;l<JXf(D`u
z_lRKp=U)$34G4%1y#L%e5b*k^Sh`i=wi|Uy9Ey|kAJFz6IA`~(=Pc&hy;Z3Te!R`&
z`2M*J(Shqpl!&9U9j~2tOr_K?nGWIe#dIvVu6h0LsToztDSQxeqR>SJ(SffQH=pY7
z-SV)HsXT2}ujQ&~AQPek=i_{+*zU57QTB4Ur&Ux@^_#Z$XgS0An6PCTIr0pvF$8FZ
zlb#C4CnGv=J?V~`D|_GV@>UFH>Wp*SDqx1_!1a7>f7{1z?)lk};|K#|jKT&#q61&Q
z7M+5`)aHU1{P!_cAJe9{WkPh|aeeG!SQle1`S4*}Wh3~PLsMHTTF&rwkjj7e#f&N;
zL8X12u{Sque5w!~xSr{#vxgHY?zt4(`d3(GZjSmQI`DOe%fCtP8CRsi_VsJ0TgFBG
z%n%*8o>!@7CDtc;5Bw_pTi4#nwU-mq=`6LoBr@sW%_Y~p^QC9wiJo_8Im7j=E3dCA
ztnAHuX*hE!ThZr4GN$vopy}M14FyZ49*O>YbRx-Sm`*a`(t6tr?V@=*BjwF)=R7$P
z9e7>vw05M#P3XtHD0SprIvyG`{1z{thI?Fkyj_|{Y3VO0bBGTg$V7DDdT8mVz0O%P
z56ix!FF*Gxub+tM!2L>Xc-*L?-|WG;lUK#J_o+1j(}^67Xgyl;l8xh;SGVS1VK=!2
zFQ4vZy9H{kXVZbLS9ZSQsjeqsI=b=xQU|{G=6!e-Pd&cVC7g)p!1v2)#G8uIdqmVl
zf_LOy()8=IL3H4prKwc)M#q%ft|wP9g?O*F@*_HM-~EnsT``SF9^cKU?|DOsvXk75
zm$R+myc}Kako`96mf;|lfj|<X17A<~QnD?JQ4F2n+VlA52lMwfzK9N-PgJ?gMfMOn
z&+u7+<a?QF$7B&5xSm_jgwFn=yIhn`HehM&SEQyxbm05kQ2S?-D|9z(Yg1cxc0Wsv
z9DakBv$bQy3aR>HAa|W_%y^QUQ6{D{{%}+7@~2UgZiVA<S+%U?Hkgh>!|q!QmcNA#
z#`SSD>z|zD$8`Mk29j=wj!&sm2wN#X+Yvkb8ZVzk4adYH1);~q2dr!F#}j^LB0BK8
zcq6eE!vEl#(v)TZGgWD15fRhjZsHv>r*Qn-Vt4s?{-;tmaYP56&mN*r2FM%S#@h#a
zBEoGv<L6)D<#Y8GMXIK%W2@$N74_3Y%UxxN4!kZLM~*-1z82%%qRHE0F1SD$fay$c
z>T=we`0HMEuAQ}_B#7M*(Sh@6vG~BO%-bx}!r920ZhNwx3Dfb}@u#lnV)3Kck3H|%
zTIsg5HKFAU&!5rXPj{)G@lOIyGN!X@MJ6IhxM&JEHkc0ASz^D%>7lQ{Az(T#_c`9A
z4+^mYXTA|HAB}!N_w~O^oxrKWbabyB%}LDJCIp-SOy`)va9oUk+*#mgV>&0I^9EYG
zj?Myy3DX&fr!opI+i@N^Jq>s{^UsIoT=2E71WqQVbAPW<{}JuxG2jp}9fra!uY@&k
zl>$c`)9If4=xrN9@g6uU^?3QXdpuM-<f4%boO(>>YOz<;;NBOuzzM^2<b!ubN@?0>
z0LKv1k?9_`wToSE1`a2t!`d|)pWV2y2%O<MyqwkgSwpT9EH!~c!gOZLg@@nN%l<Pi
zcT7j6Dzjv_l8XVTM;6m@=HFwR?x3gy912Y5kiU2TcC#cE;I!1@<s9lo8Mozd@A*Gh
z7QghryfYY!=)l+0z{uRMUQ;?Wz%j&hY8lmbIt<FY1BVIIxuwf~#Q2!v)SUxejo#%i
za@t;^<pYn4=ypFT_i^a$KV#3;Sj8;pV-X$r`d;~v>_=o?SqF|8rW0`_bjCQdy-b&^
zGpITzRmqR&z~`|U+E`<sRz~#&H+IJwp{nTl8oYeu<m(pc3WJz{Q-<lxe>qLBk+eg2
z>hy2z37)ZKcT7k8*2|;9t8Z+9BaZ3hfAD)r+1tSG&C2{imqxX9{smq>=dUPmw*(Dk
zgMO7EI`I7IdDv7umbdx^IKG$;gKv1y#x)i*kdF$Y1FwrCgaX<;$sek~p}=&8)GyXQ
z3ya!!@dbPKy26ZfeKlUr`Gdt?RmVe=&1X2&>Z|_m_jSZ{G<7yzg9!&R{laxweQq`!
zQ$cjNq1WR?i+XC8X%F5X9oavsbihWx1<`@~u75zWS&Xa0*)g%hS>jBbOe~_q0@d^M
zd_>Ry?a^~08m^z?!lpj-AUg2Ap-D3<^VjgsS<o*MqQe8#!z(EoC8Sw5{6{v_;koI{
zTv^2V;{Z9u6HZ%sUVZtJ!r+(G=wB4Yk9fThhn%!M>xt49zxNSc10!uth21klye`A<
zJKgbn`AmcM>yO;2by9XxG;=nH4*cBDUc-5ldp@E5@!q;XC&v#=sP(|F>wVxkk`?Z9
z)+oQ*@~#u_iC7|HJ@D%V86^6oTUL4^9to#(DvnI?YhyZnZ$}qr)3?cA6Mt@Odvtu9
zfat)_$C8|;mv+Ap*<g`fY@**X=Z<=gg7>j&Gd@w54R1zoJWhGTnD=449&!G_?@!?2
zZ&1(hnbptTTI#N*WU-Ts=)mLBsuN+){W$rx?EZ6x9ZT25Q0sx6#)V@Q`x)sZM@EEP
zN~depk`e2HUq|Dx&A2G~C1KlO*NOf442^MNhz`6i4z!+l;$rjKX7K&d3~s%jwW#Mz
z_;s{<i?;Tp;|lgEBV&2gNBwsDBGv;tTt`d}R?StN0`K>;L3H5xlO4A1pWJX)V|G)p
z!mx(A0CoR?9U5vs%ByLOi?_IPcZQt*d0-gvTn9UA171s9pI=mbGBiGwME6EK6Vu7!
zs~l<n7X4MWWkZ_abdYF+>2&_k`CN72dveEK!kQ+r)B*Lp3Xdx-|Dm6~zLej^6*Fm(
zzlB!AnCCjBdPB1wQbFZ~q6wx0tDHYGF&)=x9lk7;6PBxveuE|V?9^;9o%dn6&q|YJ
zp47_}iuK43WbtD<UJX~LGCo}Wo<VtAiljN#FpPLTh0hx!9F+cy2gMF&rm5|V^wKRL
zAv$oswn)1?8!pbRcy)+bFnxNrA`#Jn>v2=dZ%R3{VtOmzlXicopouu51J_e3+WGlz
zU8>QwYh6FGcIEGyM?AN{&Q5dUJL2NiiFbsHzwOuQZ<S#>Poo`@UiQW0D}UskVYAU`
za7T3D^O$zAvJ?F>tK#Dhg{lgP!x^aORXFGI0J}GXP7~XJLx)%o>>Mp`d;ErJr6{JP
zV4Sov`=RYQ-g%yWU~X5dUxpHJVlka&d&-?&YNsDqb!0wX4Vzjw#B^RsnDA#x>Ikh=
zX9-;6s!m|SbfWivExq#aL|PC<uYRzM<khw+ynILz>Va2%bg6o*G=%-w`v+n%okstL
zBmNbBJ8Dhhn$(w;Mh!6?gCqGfrC|=$Qi88}B@-k5Fd;hdd>-WaVRV~;+TpACJx^(g
z-j~DA(DH$u@7BSgV`d6xDnjkTRpMSqm0>!kf_;LIT1Rv&UmaaC*qtdBfat*c#^{-~
zy2Y6LK1L#hy&i9c*;O!|5bDPsSL_z{rWsgjP4;IGQ(!vuW_ChT(V>=&eO#q<)FX%L
zE75X>$HmH|Har?087{YYpe3`0|5X5{!)GSE{r#u9B-xb6hbuoi=~XZt>b@b%)6;7d
zuB&z`kF!-bC@`HZAJZ5~OnLeGr^Vt-&736apQ7ah-#1Br+WyQh>~hyW^&V<(gSLW9
zL<i1Ues6K$c*^xCwaB{~)B{R}Hki)r>*^oVou~E}v@koJO{Hky$8-|k-lnfv-TCXe
zs&IdC=-s=+6=?au>$Ftn#=xkXNx|6M@fS2%C*PMLI`I8h>>bIjRigGckrSzRc`u|I
z_aHiOzf?-Log*h&EFP^>vUn<NMqh>K!1rIYjZJ2MhxTvY<y8tXZgM*ji|D|g<9O<P
z_jH5Ap9J!#SN-3Fx<@2LhZTChF}ryD*8Q7wCg3`_g6P2gs+w(+iz*!}2iL(CL<c@6
zG@flJ8E~RCPu({cIl;v(f|?J!E}YAsTFJS(F5j9S6SX<voo0ww5A683tqI+CG!X>v
z4`;%30v%OTl8@C&0H^H<+PZ-2i4;1JPyFaES>7DaV`VH?8jI;%ds8(yOxfQ7979Z}
z(a2F%d&F4&^5AU&>PI_AnGhYg@07Z~tmVQzY=F~Kj+PJX*fcYqX_x3A04EdE@#0K$
zR`k>U4ICn-bCRmPi{IRX9XR5cPGOyNH$7|NI&fAV<K^>0-~VUd``U2e)MGlPY#dfP
zr(Hh2W72J8y5_?ihUmcaxi$B8N9>7nYk9%fJzL!z__Q${pZm`jJ_ObcNU;8N?FeHx
zp~H0ST-O9gXZboMPVj#<4BY;$r3@`+_&M$8gB$PXe0@#s69hB&Y-RJQM|9wQb<0b2
z+7tTQ6BvANt0#By|BXd-;GD1Ri}^VJXj~dNhM3MVr+Cdmj%V_~VZwACEY#Ti$vANk
zIBlh9Im6?6d1s#!tIxtw;KX7&sp^vb8CPGL@lD_7WVzU5XNc&)*Z0a%F?r8#yBk_(
zXJ?Cta(xJh4*YzTk<ae|!=cwp$32w3$_5`b;Y4)c&wtS?uWS46w+f!MI!ySJHNA=I
zz&Y>Nr{uRC5vksnT}S(Tb<nz}1g~EoTes}X=pRgf>ex!{<wAKP8PS1r_Rti&le0EN
zEAabM)OlyoG<QS?9v6fEbOGlkIr7YU!ymr!{@>!5PX4p8GGcar190Yx@$$JNnb@O{
z&n*v}GE7H6W$LWYO8ck!>3VmQ9d~QpF&zt@OKx#2QHsD3$8_X$M5OlWrOhPXT&=l!
zRm5z*2rZwz(0O&A(A(S#+Hd|cneS|GRUPBU&4-D7bB*RL_dHmqxcP`b>=b{|L$eI#
zA#OedcMJ9eLftIiom;o;l#9Ai^MTie=lGjvl19s8G|r3xO^Sl8Er>b8uY+`U=lxy&
zHu9`xurX-sjfVkchz@+;)GeaTUw7q6xFm_m+{Z9}dn}>@*E61eDq>SFc<Z?omw>e~
zk7{2;2R<MEjIp9TTYq#9a8xiIcC}+Qbyj8kz@fu*BolS$#y;(7JwI?VU3X7dWm_TI
zx`3}2`<cgx>YvKuOsf9K)4iK?sYi6+^G3*X#=Q)q4(xApGou5oc&K9$9XMy6w};sd
zobPH*-~C+ehxj)GGeifjC)!B<wYjan`L3|0?`)1irwE7+Jb&(ZbeC((b+sHE{T{_C
zWY^4u=)mJTx@SYqovLLW^sDC)TEF1y&Up`?Z1$1_CeW{BOh-8>-KS#5p2Y(b_WARV
z?5~(1I`Fs-`)8S7`&5#-kty2jw$XN%AJbWyj2ob3+^PZYbIApG`5d(r_<dtFbRIY)
zOvjokyt#s1!W}q7Oy_>a#e2@@ucQHofax5jvyffRS@8l6nS__mwg=ohr{<qNJ=13R
zaL?AQ3nWY@vx@i2A7$=H@VWyL(ShfWve%_+#>VVV4|NH>);nUYCXVPZLD%;|vFmho
zburGIU-DxZ%%jIq>w)*f^MQXzUvJHoE2zyUS>MPwX@*!2yiO0OWPRs~H+UM@*_yt8
ze1`}prbFJ|UmC&PT$d~R+PU>Y3QJEuTHoRK?Fd~J`yO>=>T&t?^AvZJr=7`&4t#%l
zylT_c_~ww+u45mqKJ(?j8%A{Ce0Dic_C58#@$u(~!Ht=i29-=i2YwD2-ClFG)YM?n
zI<29hiK~Kc9?^m4;dzUVtosjco!EYcF1`2pd4noM2R^s(D%^<9@d+Ht{#y9H%u(fU
zGNJ?b%iL2|&+#=C_3)+W;PYLvawJ3t{=Op1dl%CPNniQF>tCqz2hPVWS55RH#hK5a
zdiX9Kepr1DwO_E45gZsAMO9uPx49=V>VfYh5pi6wb0w~rmFZ-4=j(=qg?8-`E^$N$
zzR$If{@cJ<%NNE%(9*Np@}m{if$JggWk$?#Z<~DD<|r?3)n~kthqg}P=ksNS&vwVA
z*(iAEeBCd*t>ZEi;<(^?vbkON6J^Qz*U2}NZ}9d`_8`^+uTy5rUlX6|j%F3hblK=Q
zez>2E>C{|^`K%}xuKDxknPe3!sv<K)2Y#RD%#F7?`TMSqZU4K|GFkNlB^l9y$JM`$
z-8)=YK(t^xx4H)9{rx0N=UBC_X*P{ylW1bhbxMJB4kD)Wi8a&F{XwT#TJEa~%b!il
z1WaeDQdEkgc{M+b=k*cp*~mNOhiLN<&gbVWcjgVF%NkPyF(q|^;>;vW$HI6-(t^cb
zly0kbyh!l?7ZKA*QxvDr<8yQa4gu3C8O}c}E-ZZ}eKfmQl+<*XoQs#w&gYG5yID35
z0*8d_eC(3$T{@ct93rNZpqi|-x*??x90I1Zf9HxoSR^$)aL74$`EU!Bjl@YO8#|Ly
zT8<J@!bzBp7D1o1%Szt^I7Cb*zu}1Pmw4)Q;1DpKo)=Azw<Nsj1`atJFQ3sZ(RuGJ
z4le?Sgy}>)pnf}Lbe$SFL`=srw#eqL`F=a#5HOwdHc~dCMT&mFA!p&`!<(b>Dn!aQ
z3pgZ9XK*rQJgaYT4{(T>jvvoX9x=M?c;FB)ow<UX&r553!N4JB;^ouP7pL)qM5PEE
z5~lN&Tr)OT8-D>fL`=tz5IZekvE?Oj2$+uj*~>5Gr)FG$Lw<ml&-48iy<fWLjetYK
zblL^D<e8(=PXdRC=}3ItKlkmg!2oawm`?VD?v#08LJDxm8F=~3O#P&CK6!r)I3!GG
zHK+ODtzR2wfJ4M|oUSA?(S=!k0}cVxiM!<e@<r`aN8pgt@$ylAv1?1#Ns0$XKBh0)
zqBDa@m=1OH`&<zjb}ir#F`ecuTGyP~?)U<SfazE%ym6mpa^43V@_oE~c%<|Vu0PJZ
z4IC1t<EtY3yx#3YJ8+1Y&aYV~+A%RzUEmNfop9RLH$P|6yMRMZ!^=k_NqGnN{NH@w
zkT9L5-a+5L17$?u5HTHUqpMt#W$jA9Az(Vc-t!%=e55oD9C9jNK8N}*4zecoa{-5h
z>C7B+&LCcs761+r(+OBPzEacuvIIB;Ovf)H@K<EcK`Y>pQ}FV6{i>bO=|hbQa7dUA
z<;{qz*ZAL>0*8p{*advOtUADb6F3A+=jsiCz~IEZW#EvL@$%vJTYQ=<+VRgkBw;#V
zudAGTnfT5Q)I-E{jxY5{r`J%q0*8R<j09fjI2)V$0XXC&ynIY<QNJI}<Dv%+3Dc2t
zJ;OI-QJ4iBBBs;($FT6ht>dY{Az(ToODAX&$L((chn$F)PuUx$oSga~P2i9)ozoSb
zTd&-|@C`UbOy{88<${39!1KT%U^+YMrH{&7Qn~~jaspmHQr-L1$IX3`fJ4G`GXK<8
z2=-F{=lX@|q(A>WV*E;b6x2h&bSh>v)i+cVt^kL84=<l<*A6eJl;jBkhlJ_Kd~M|!
zZ3}b*4iVEiPNBQ+IQz}#z#(8dGQKw%zy6ub01i1GFCWzu{fW<3DW`!$!gR!lMPp2t
z?rjAQ5!1Q#qxWN5+C69B5HOv2X4V`Zrip*f8{{~=d=9U9Uic$m6A9`eVLC!aoC7%v
z26@0CVmc|ib{Q2*#wh}afa&yfYZ!j(X8z}XhkO?=AD*-Gp1uta)ImKYOs9c2gNro0
zuMs#zOy};evXOTlztVw2z;tvs`>*#r^pFP*ITkOU2-hs<`+fcqz#(BeT>?sc@<R<#
zz#(EfnSQ6fh$tji0*8R<h_4*<vN!Jh=ekUe!OLgm@PYmfZTWw$%Op(4`=Sh)EjYIn
zjEjir?7NUHTcPz@0XPIqhku_-=a9;c|E#ZQynIfrh^1{Q+F1_jAz?bzw=F&9`4wh>
zL&S81cO9xfB=X<|a0r-=YOu%kd%vu6fkTeM%jaHE;ox_s6Tg5%!gQKwHr~X`&VC0D
z5!3lZbliS#RE+=}0;bbr(H<1}sbm&7<U4rzh&@m|Eu+7$5I7`EN90_)Y(|(&4{(T>
zjtY~&8MDZDQotc#I>w3|rnj$a{<AK~k$CwWXXP{~pje>-^^h=~NWFR<uMY_;z#(Ef
zj|CgFQ|?Bo0f&I;2<1BM=&A8M0331zUOsBC7#cLDNgTi-VLDsysoc91#%ux{BBnE>
zXgT_!cDWfi1WbovC-Fky8kIM2$l-YTG{s$v>SZW?1{@Nm)33){ED^Tf2slJcrzmND
z*LF?z9l#-AI?`UOS5((E>VQKI!^=l9<K(Lg4^*XrL&9{#!W-UvvJ_+n4iVE?cJz7e
z+Hai+90I13FTrwZZ_eE*;E-?Q<uk>4<qID*%^Bd3FrBwIBUL%})c+?ROvlYwTJ-ey
z7(P%B0n;(o$?GA1VsrrxITSCS6Q|BxUc0>(4jdAuQ<v=45`Na<7;uP~j<4sk%Yco{
zN8k`Jo#D9)@4nRORRD(^f|t*vfUW)Gh-l$O*}4!3A*U=7q65DVErvF?cXVt09B|w*
z9s1N?3?}<hl7S<O>4=Q<C2^de5CRSbrlTT4y_mWyfDt$?!Du<d`DmGGy$$KwVFa95
zOlS1m*3MD>!XV(7VLG$3Gn`(h277_SkLmD!NZxGhUhx4AIS4PG!sn*k=bK!=0jCVp
zNy%&HN;N&-2pnHb$Krx))^iE5XTVXxbS^lw8y;SC@wu0+`8{us!wMau1HVtNfzMM$
zu(nGCI4yx_Im6D1)(xpRv*BiGAqKgu2vf^2Oedy-b}wOiQ2;pFn2w*3&E&&RdxwBS
zhv`TVvbeYx3LXNd<rZE(9jhj1+d3~T04EI78JMn^>YDK80gg7N<0ez{^sR5kJ>bw`
zIvW$|Hh*<2ynxdZfR|6CO58!UITHoogkd^8)BP@byJmBNqmAjD{Fbo3Yl{j$aOf}{
zzV|sv#Y<bXfYaiSmyf9Wg2nd>+ogaLhUpXuZxfWNIb;MJZA>SZJLb#vZ!_M&p~G~n
zUQ&969sA}7oEAU4e4bira?u=M7zR!lrgK<t-&aQCCr-f8#&iS{*nezW;0gf_9j0S>
zB<D|tw$69pwA{qYhn}k_%&+$|J8;4<oyCXtB;%u<w7}8EbdIdr#@ihop#TmYrZYfS
z{`tiy;WKbrZs6s!DQCP_JB-&8IANF$qy4dQ1uf;5z|qEZDkix*rB#IflMkj7+kE|}
zbi7y`sHf#RUOuDE9P+x`o_zsM7^YJlG{ygOsdFcAv@xB#N{>GM`9GZ9cRZE<|M+pr
zIN7pOMrJ5`W*1I_Q1;#{**n>s>`hY0h>Wa+gshIp%HG+ekdaaRKHons@7wMA{d3)3
z@BiNa+;7k4;~M8Wha7FrcaVbublB+p{cjPQ=RywF7p#xX#w{I*GiPlf2LtGcyq+1>
zJUgNcIcPxVYg5DDjegw!&L2QW^uaeS19NR=XdbK&Sf7RBWv0r(Dk8|i06N`<Z4GAy
zE#5#58qlGN$2VI3*zw=<51?~k`wc&GbvG572kQ;i2S4&giXSaY0OVi*9W~k?q4NGO
zBq0Y4=!Cp54Ga?g5DYmeK!-arem_l#vKw-+USNGnHY_XcgEWF52LtHji22iMopC&!
z2My@FQ4GAo7kumVdPe~|N)pe%1eo7TgZ9FDg7sMs`gZN`<F7-=!2mkPn)<^;B}zGv
zg9dcEsWfm@@uW}h8z?|$rrzvlgOz$IG!NDTtdFyNwwv%fgJsCU06O<qiG4oI<=ufC
zG@$c<>-~jt2~r`*K><3r3MJ+`R{m!p2kQ>j$3h`XdFOrr9^_yEoqt!P*Bi51PoFo?
zfKEl-ggGO_;pz2`0(875JMaA96j6fq!n%R=aX;giyZcP52y!rh&I@B@oZA+B1(1UV
zbe=}##6{cfM?ww?&?(whA-wU}tqgLou3&w#2D2TMetr4x`4G@Ktlzz8+hzR;ng<Q&
zU_ISsMHv?5AO{8L3?-?O@99=^Kn~UgtWO#Po$Kl&-ciWG06IJ?M>p$K<U}9`4d~El
zOOP5`Z=D`@6rh9qxpMvMFZ&H>9;`E1pLU%ZZU<=}e8|B7I_|G-E+tagi9-$=(2?hS
ze{8&b@AQ2)3edUP)!#1R+PetNgLMMyGcluke&+kvtB`{MbbKya61|f3;e;GCpff_u
zJ2)I2b^3V}3eZt(9}rOWrZ0x(!9D`(b6$|*=QYn2KFGlUI%xC<66?kTG~}QGo!QBq
zdm434|J{E89r=4^?P!G%PiP*jBUqo%-<Ax@;;-I94hGQS7Y=si-eWqw-qC<g{<eqR
zuK(13pC1A`6!RvI222#^puMmU!TQLQ;d9ccL^MDS2GF@o`b2Xu{GbkU(16a>MNhQh
zxs++hK><2ZT$woB+qf-|gLMGwLmMMNcKKn8CgflMov{l6`czb!&mad4=zR4F8koN%
zdHNiM0(73GQHtQ-nfwLKgS7|i6ZLtGiaBXV6ml?tj)Gp7#BRyF7UZA-otL<_!L0R*
zr|(lxfKE<Vd~REI(MxC^tQ}Y%*)Lqr>-lAPAO{2J+<d3A@c}(}dLKgrI+yp{*;^_?
zPT%jK03CLN<~!08H%{;KSX;0@_tb{!$&?%(pY{QCE{*)SA%0jW0Xb+uC$sx{hy;&~
zHsqiHosa6`#k%+FPM@Q&Heh|K9W@+^g>I2T^I!lSZ|So4%SlcSkb?$v+({aSH_cov
zAqNHM#7NDs=M$s6AqQ&>)+b@Mjrh4_V-w_H0G+Ws<N6D?R4gC|4d|d_s)UMHhi^a*
z3ea)EWlGT+-(Z0ptQA<FOT2e7YrecTfgB8=)22&$P;x*-4>@Q+M+TeG!maZD^z{@4
z=zKM7bnDJ$JpCL1YYEoJ<+<^sc=N}*&|Vlo=et%zE!(xrr=Mq{0UfC~`<KnF9d1MO
zpa31BFRcdC?q^Ovr^Q-;^|7_}Bvp0}mWJlR06Hu@nzR`KHocI826RLo4c^9)eL?~`
zC_sleo6QBiSoIKcu;yTWsB4NOIo>#`Lk<SeS(vGb)8mt<ha5DZV`sZkN|)<)dYz&G
zo%iNnDvbVJ8-eD*nt}Bpn2RzuJ?Ke-91Nf%rjaR8>zsjs95kR4No^c|A5D7tJ_QBn
z(3?vb67g!BzFuHW!TPXao<1(Ug7Jg)!T>rYSr?xiuUNN34jRzO=_0q4vPwUF-9Z65
z@gjWAoNAe5&^%ZZus*!P^%<<GZ`2?M1L&~qaqby%rJO#Gp#dF&MFq_d8ppoSJSadX
zWJxEbH|Oks_a9@hJ_&M;diDlSFF^BP0G(f*3#zGql-M8#4e0a@5JkuTt*M3_6rl6E
z%i%YN*ZAq{Db@(APZi@&*WO$Er_UQ0K<B%U^}gIK%n-B}8qnEe^POW_z%z#&6rhtp
z{lINJhwk+EA+d&FeF|1AB#nivH=%hjfX@6Hed{LsjyvR_0iA*Sl``@%tFIvk1?b$z
zELLYXKFWX`tN~b`)Q&J_3+A~v$iV<Qj@uV-j_wYHLk=3y`7UN1Jvf+o`g(x^bRO-S
zb)=jPK7CHW>Vx$$2)|YnRbHh4?S%n!h*s`h>tw?_h8#4YQ_IgPVNKv40y!u^rzyQE
zKXG&S^yhI{J+MASb$LJc&WxXa4v7JD+JC%_41Z?+2-*t`=vbycCJ#lex<L*K(4j5r
zqnzuU{Q)^xU9dhXKmTU_^Vt0ZIT%1k;0eQ92ZBc@kb?$v0=5(?9XV}Je~%Fb=%jzx
z{esRIzX;8P)dA~6Vxmi@v1DooIT%3aPFUzA`m!Da$Uy@-tpEFm>&$nb{`dL?=qy}U
zrEn5SqJ!qaYJ>F=S4Ic^I@&tDA7TKV`~x$|-B#CTXdX16BiFrbI`Qb~Z^%IbI@MkU
zYDv$@PoFcfT3~$+ugNp*WzO|L^I!m-+PB*`E;T6rcmDx&YB;)Hl3s5-{ka|r(CI8g
ze<>uHbcOc9J^<^pJ9QmDFn0Fz^EwQmqwD;-bENX$fB*gh(0RdCzwyd4RuS3@1?W^h
zV6IJ&da(jI*!y68NJpt}`So$?LJkJdaXuD*RbKnz^f>_y=%`pVs1Dp@JpH{C6rkgr
zny$vDK>8Hg3#$p%hey|ys0+ob3^^D;Cvn2g39TRU-}MFPh+4L;?~(of@8^Sn4vvqK
zv1ydvS!ge;23Q{-&#v&tKb|~?91Nf%!=1}6=)Lpb`2*-&zE>7Du&(>x=Rbgs{EMjg
zojJMF&;79KV100AmAvLfCTmXn06NShZtl2DuTDQVMgux^x^fCX==sk;^Pm8ohbzA^
z4l0!Ekb}Jk*2jgWlzuEwMGSH<fDSIMSKV7_A63Xf13FE27_0^iggGGx1?aT;&~Ndr
zi8DYBRt>CA#!_CbcYp!E1m$O`+trdcFn~^c(EE&={%-dm2My@(?fwoo;?Gls92B54
z_8<?l@}6N0a<HmkeGdEkZ2}nz7$64&=)5Gg4mft4egrvaP{-p}MJb1RIpm-K9oF+R
z+D1Ln$B=`)3)V;J#c}i$g<w16U;v$!m)Qmi{`sd48qf*g`QNWNh!IUe^Pm8oPT8W~
zcGas5kb}Jg)~8^q|B=+R^moX?06Hl&bh)iAyf~1926Tvo2M5lnvYt99K<5GF%OEig
zF(GIk>}{|<icf3aB_!hMLJkJdxnsaP9YTKD6LQdij#2A$R&HAHKgdA=I^9B~bupSV
zagc+(1=i=R=z~6<<Ty>p!2mk%4aDfgUFxJE2My>*MJ3+~_j2JI{!-mM<fd>N1?W(o
ze2Pdta4v-$EE=%SVd3qvZH-;X!2mi~v*%?Cy*E$iK?6EZPFQH!Mi%Fwc~F4P!2^5p
z;0tM|^I%oL`h?Rboqz4Xf)CAu0d#I%-r5}RXSxA7Xh5g)8`G80mQWtZK><3}2I`~z
z-7+JPgH;CWGwHA!qSd|-134H#M}%{rLsEvz5pvLgj`+vF{Fh&L*$_C|cm8SqK7ayr
zM4wk<>BB;3AP1`i)+g9nZ*V4VF67DO1bm8>I1vm&2mZal8u@o=N7R={E1w^!VturN
zbrCx7zn79WlqBg);btC?gjE>zwD?I6=u8ZHeONFJT%;HkoJdCTq>tVN>x19Gre<t{
zSIEFrvGrB2+cX`}=@NH}WxQ!m@9R6Xkwg8OS{KlX*qe9$ZCb*~UCN_dc#-HOJ)jd?
z|8D6(fRXPDxBafwKcb+~8_4>=|ISikt;kyooj4hk1k)|mtHRRR2p#xwXW(yZOM1Zd
zPO*?pS8Z+~))b)wpN9m+z9>~66lzBzr~BMj{VO*@2R_fdu(z~O=#aZyEoU0}&~?fc
zMX)~d$rkivKc7@AWAWK&=c;~|BXr>N)bX0L*fL)YTR#ccvpS<d<_zfkD_1P2Xe7zc
z>NV4~3Xz@@0Ca+<&U93U^|j(FY)Qlq$}w#!AnOCaZ}g4y+2Gr(`tB8CGu?FS5}Oe^
z@IKM{9O~k8{!)qMUq1TO2VM&VbhP5lS4`@*jW0ep_-Fo4B10a~sgoIP`WgD_bN0X0
zc-+kEUN{IH`1jsse0cfY&GXMjAjQk!exAF_v+`h_%eZR=#ap{V216pZob_jv%K;rr
z;^AKESFK~v_hknnbl}IU4J+-slk-Rka^wM>F81@dv{v}!QVkool0|(va1c81^Kc~V
z$#b3LA^Xs+sigSy9sNEzWS!yPFD&+!D|$YgE@<9mR?@V5jCU5Ha}oBv+cP#fVVOUC
z3Pxhb3smQK1H2LLbs6St?4Xi=Z8-0|V3EZL9^p=cp3j1Og?9-SMrTj92x9&wdj^7@
z&)Ao$g)Wr>f1&3Mq~|mI{E_nA9G+{dRu(Sf`4^xextxu#58Melx%5Y6W_^0WrshZG
z`CC1vfX=z?!%O5{qq({1xs5qL@p@Q5ow$chpRQgHO}c*PCOS>;E7J1^zE|GpbkQxw
zFW%5|R5rr%5bpfWb@$Tf`<GmHUm#HLvD2a{phL)<|7&zJm*wOi?Hm*3V?Gu@XXNF%
zkn2~@F|OoXIsB8L`Fd6s*>wuP-t#G`#W;p1>?b2sr8zzps+1#i;C%vq)`*ZsU!1HR
zVzyV6#T#=5bn2I+GV||uy_5Q`rXGKetV00MsS+qB3*h5y!5nq6YdU34Z^|I+1K-O@
zHdDgOdxSD_Jc*cUt!2I(p@Rpz|A-vM<2^XM#eZ!`Ui}x@v;hX813zA8zhsOo99Q1<
z+|ISIJv^S&Md-kv5AEj*1F0I-a-ipD7K9GGkH9S#rw=6b+w3_j_7ynxm9x@do!>sa
zc%FFH;(TpF4(I6OPUdVtC$}wcdzDA14JA44pFlDsVhZT+xM3{T=U31AmSyW7NBzCe
zg3y6?KHBl<kRGAa7^$YVE=YXNuyP$)ANcu0@;+j%C1~X`<TL|16{|w$uZ6})3zRal
zsZnF`(h)lFy?XZ<%mbqDd{iP`U(Y=__rMgP13!P{{?5@I%R9c|LT5fN+P(Uc1<-LA
z4Ii{f-%y2|St(?l;q$QGw(gUik~#}H*?>-ePU+0qzhNVgV+!abGF|65=O<CR8_K%N
zb?<5`3!pPXNm{l<dbJpGW+lP;7zjO7Fc#zHg`8|aXD&ABjVi593gnmqIt_`apLYmp
z-5`er&=JE(#P(G@KAmS)0<6#8!SQnk>9Tcbo@_vek5w3tw$JD~<d_0Fl)4Iv!xTF6
zki!D#%ra?oja`dagq&G%us)-r5_(?hwtpZe8_*#?7UpX7D=C2-Q$T0!s-R+4m`nrY
zumCzYBTAYmGuuz+nH2-;V>iA(T4ZwG0GcNo&=GKYOBQ)xvJW|?fKFg5OXs)q@s^Oo
z0_Yr0VcaHgM++fmRurtyHY1sP=8rui$jJtDC}xedQ}X>9A;%QZ`FP<5<wD@<A>^<C
zI=BN9EpMV^lp$wU1gy`SkZWwRDa#6wlMU#6yurjct{JWbIi`S)t?-JGhEef1$YB9=
zq7;5cevf54b!LUZ`h4Hpa(G{b;(_ML26X5Zs2@>84QxP;DWD@v7`i@QPLlvREP#$S
z*}b|O#pF4VGb;qv=g%C@3w6D1Psqszbk=_B2zqMD5JHYApyP<ErE!tw10&?H06MfR
z^7mE+)xJW`tRPq)hl2A_ZQ*%MkdqDQgnvFCDERHKG31y6I%O^17O8=k${>dY(CPX+
zT6N-5697500$_c9oV$Y&4VOB7-N^=Y-YI<Gcj9>E1I=R!=om?c9cQs9yn`GTKnD|4
zC+EpaGy^%a{9t`tzY(7QzQdjbIoW_ts;ZbjI*Vora!di8pdKOKHuKk~$DIYx;ceqk
zq9^z8XnkLKL!_RtXZ9MhKJfRI1{<++M=BE}kW&cgJdEQfAn!O=1HC_WM(Dub4|3mU
zcYJ#39y8<!06MPW`JE{}zukmJt+W?bIf^!~BI^U6hay1c(hpo3T5r)rf3+qd+;TwY
ziSA)a=IEbv>#uhW{`~#C<P7LUnFUJBJ8Xwv?TV?qAy4&E0MJ=L2jJ?-hHF92CLdTI
zal9|Y{i6-|kW&umED?HrvtBjb3AjvAFO4QLb4KXEKd<W)URPVL7kBxnzW(r)jOT56
zgbw_;GZEdVvbfw465QoQ-o{wpj05OIweFg3__`?bgpw6JRC+Sr%nR1pl#m78k3+l1
z5KAQ2@XBK}5YUOS_s^lET7Rl?o{@{|<9??+LI>V??c`YVf`0$AOU!Dnk7dt%qd@4u
zJO8{g?(p$Ej{6tf(RNPbaBLqBSRc&!UwdE5AM1~?Y+RR7{TUt)=v>dHsVqB6u#r!2
zJlTKPGN_Kwf&ct;$wOwENmJRvOMb!eRaSbn078cd_Br-L6^60wa}Arb(`1n&cu~C)
z2pxFmWg1oCS=s%6V!sOfU-*<A?q31xY^9m$HKc1PZ`04>9`HWWs}|6Cmmq3*e~h-J
zK6h=|fvh*f8=(V#{YrmV$tExODmI@<(ytF)a!nqg1MmFEixF=WbL`%_JpOi`Unm=m
z&>?^wulK?2Cd-=1w0tW1k-b*&yaEWFb1-LZIa!OYvf}U)6^iHSs%{#nb8lSZm^AD~
z4_2GzWQ2fV4XFb^pKG@?U1=o#?hzmOo>UrcO;aG;>jG@A3F1cmzlERG8d)ZLHk#II
z(-AuG`;SXt>-I~zgQ~(ixpeK<ds1u>I`HG3eCzc^Nf}NtEc?|F%lM5gXM_%X9=jN3
zrUTu$H0XH)>3Mhs)~9{r`vGx-ed7aM)A*g$bK>#{ulMsX$Kg-R^iQJ4m+`YwO)du(
z#bXdUG%!cWN-ObZtfCO~{Ii14f&V;Ze)h$&tQo=F4oMAjV$+^wGeU<PHc!dbagsW+
zzxQ4(;ME8&8^&!Sbl}J9f@kNumi^eLDANGX1f9qENaumyfBdY;(M}8x=J&jWBeWah
zZIO0{U+)Ye49|u~s^h3F<GyL&yp}@hT!Qt{l@*+h)_>LG=bK;1e)h<M8{z9RDa_e<
zj4q88LE$*0UU@Fe$(e>m=)m_Hms1aY_?9Jp?X2F!>R`|}qz?Q#bvAevY52hyBcwwq
zFWJ^?tB!CUGT2_npV@h%L=1H|>R0urt~RNABXr>B&yw%`H<IJRrnv07Wz%wJRFLik
zf4y+4))!)9?6}8vrZdKlTFzSl;XJaiy&TkasSk>#YoXt38U=h_-LI)Qa=M@Lg<(AQ
z*VUH}J?Vf>%;6Z{M0i`Fb%jG;Q~iZBT|no%yPZvk$KkWgjGBv|Hy=;YBXr=`>3pn-
z%;w``K?&@!2)7-t?JUC1@aHJjehPjem#LRzCB3sPu1)RPfKCPaF}3GOe#Vl1x#!yt
zw?3HyI$!MMWe3A-V%F1^zd7wQ@v#6pJSrLGZ$q7BmX&=-X!ri4&mz39!uxc|DAJF6
zeli|46|fndjk})>=uo+LHBp^a=qIJ&Pt1)jiZcatLeZT)!k5MpTQ08P=jV8CvH&`9
zotmMdYL&Rp8mFGR?@;^CB79DOpNAw_(TvNFwlkpjUxf%Ac<18ufo-~8G0);Kzx7vX
zI6+9Cf8b8}RSWx|t1>B&!woo3!?!6OvczY6kh8)K_Wr^-ND()ziOU{x3IQD+Z(#yy
zX>2a!*aA8O^QbZV;FJZ(;RbZhW*=y66}FW^&I%V;A3j`O$yTyY?2uCk=(v&Y%*?0B
zDngDepfj9hyehP);|e+4fR3ZNnne$4NEUKdIKldO`SuTgl9Hr{oI*gyR_A=RA0OjW
z$gu@<s=YbbP?X*mA%`2#VRROvo$Hw8g`5=*us(-riQ0*^Lf0Ut5YTyOK+1}jM=Aw5
zwt$XsVWdoDeoqPHa05E`zFWUA_`Gr2d4(OU&kp^C3rW&6BhWmBfX>wV35T`H+8pHA
z0y-SwqH{9a1gG~yZb0WUW2dV;w~a3}&k7q@pT5#*X7^OTVRNgfJ-wh7rb0l+FzBP^
zgQL~&kYfwz=<iCrDEaA<2RYn;j$^K0-w=mMCgiMK2J3_OP3_DR>3Ju}DFk$0T)aQR
zKW;w+IktdKLNrT3x*>rf<ZuHzl;|h!%qjQ(LCy**Sf6jQR_2X?+uD#*2<S}Ekr=)5
zyy5;RBByUrl=7i1pp$)EE%OIGm;*W7fX;86yiI%IZ6U~6VFByY@3|fC%etlmIfZ~u
zN0gi6(qPSR$gu@<Vst_Z<j}Y$ki!k=oR_)kV)jDyJmjn}gY{8jR=&D$K`01v3IUx7
zmG&!dlcba(#}?30=LwneaeHI}IoyEGitD30nLGlbkh8)B)@Q=g)Y@VzAQW;60iBJD
zs_JTbPc$LN7SO5NSp1OeXR!l0+<=a=7lZw6z1DrmS-Aw(C+BNxL*<+1PRJ<)bkc+H
zZ>8yfvpl3Dqlj0M5wQhyMuVmEU5ftbLk>5f6Z!TD?f#tnzQ5YQ;?*#>-Ia@Aed=qc
zO-%&HyV;HXZ>AOoQWOF@%u@>)z66y?vvVA4e|6Q{Z2=v+bs9$!pNfysCbxZ1qQ-38
zfR6XT3!=WWk6+#%*&wi2vaMZV1nZ;0kdR45OKj6t7Z8^wZO2*&=+GA{wlCDl3h$Q9
z%AB{?$g~A?5@`xdhJDx@I8C%Je)9aC#|`L&I0awU!BHH;1g5_JLxWenasjN*cFxAE
zBpuoH7s0O*NZ(4+6#_c=+5(b+cS+Miq^I;>RXb1F0y>2!mF*pC^T`FfJEZUA(;sjH
zI*LSJswpn#79>`9I?htm7OgOV^<gBqAZ1BK5T0zUo%K_K=5-;U(@^FS7`*)^;4#L!
zL^;Pl&=#Qs|GD17K|dwk*XgUPuWi+%b$&&m5jybCk=V|=9X;>382FUyo0Yo9%P|z7
z!+ZPiv*p!|7@m*u6o%8qq*!{e&gWyjD%jMcro9F&b>|}W9$)~ShrYBnZ088s3fq4(
zrd+TNM*})bYa<7#1(vTZ=N#ErEUOk!fR5gm!L}rgMsW?(mXngnHDfFtSf4M#<!<GP
zx^9qz0dy#eC4b)_yLbdSXh4T(apir3)f-dK$=DM059!ZQfX<sg@>Us5{Ck+^YDuYS
z*LShBV12ZGT+A|>8Qf42pH%Ucg{CloPP|}uN`0@F@S%MvMOO-)C>o&y|2fgTxJ4`b
zE8a(by)L?|I{X^~2p#x!I{R+*Z&Grq(A*ejDb)qL`<pb#`oQP$rc58%i@Bj65wdYN
zKS6F_6rls3=OvTWGpF9MWTmGgIHIF5H`4(f2d^{KZ=Ah-rWt7mAJGlU>H<1G59^Mz
zQ?IDAl+rbkcO{&s2Xr2)TrYHE78&o-UA7GLv5Fm~M%EeLr_NUYYo++{GwA1f>3~i}
zt0}&C4&!CW(FJrg9cbN#M#OGG4n3gLG4dG4P>y;Iaz?4Z`h?<Fm2gTC<wH(7po8~8
z6E&J6PJOuS=qBG|{aY8%iGH1Gf2@y|t@=nv&Hjq+8$Ch?{&ONrZDC$+_K5815l5z^
zAI_<>=fV2u-7foi^8VYe{0s3TE9Uuq*?^AH(Ewh2veKuw*cRgRw;M)G5jya_j;fX(
za6El;6seO*t`+Dc&5h83Ul)vbVrlwsTrS>wdWTVb=+I|{608p=vr$Rth|$EMrS_yw
zGAghT(3$*b=D%P!f3xH7?a_lSffQSW4!qCL4ONLb<5sD(mcR0Heywi>5IXQa=I$Su
z%wE2F^)xSLV<x6|Ym)-3PvXa1ElrX9bzjeyO%+9d*~<Z)^W|Exb~F?tyd=>%hV?^I
z&IlcNACiWoXZR)h-_Cmd!=bedYmz|d!27szuI(<h_|4pqYQ9K;_v`CEIbfee*5rVp
zFXM#2mhWAZ;jOL(bg1ds=6F!QX6~-GN>_eio%KfO!28@B@QU7lo~Gg6B2!fw@^VEU
zp#$$@>{C;8?D|_~Y}C%NF36Gs2hiyo+Ya0ze!b#SRZ^Rhczd9k3|VLRUO&5;2>wl(
zZ46D+7)C$-at4FYf$wE%ky&GQVxMJ-YCRwB74L=ybTV*4xh>TGmPKO>1ZBvKvr&MK
zVOG^P{lge~Ng2{-zk4PwU`fIHa1s*fG~D7hb4$-%RJeXdBp#sy?_)7=DW*)E#5qfh
z{PA^S7dmx7$5A;s;9j-kUw@SbJ8}OGUJ5{m7-e`bhsZ9swZMHQ<%UC19|>5WUjKwi
zY=I>^-cYC>ol03-Izk8D=e7+aOT8FDXTj53(IRu5bh>~J`@Gg2o>ZJx=>0oAphGZW
zxT|V9|JR3#^Ve&NtmIK*WPRX!ov8MlxD7sg<SC;jU@a)amyXbZU#EISl_TWDzJBkM
zG3?XHQ3Iw39r!#hw<*S5RzHkc^jaHjj@Q<*06KQxBt7&7mj|Y1UTWj3eiEA{0_#&5
zF+eR`W=$?UckLXt*^*2)LI>VwKFB_*;&6+wr)$KYs?LYP7NG<0Gi-XfdLTF?Euwyn
zrnwnA$qndyP}30b6-{x*zdB5nxX`e;at>J^_+C83;eE#C>wyO8t&Mz#UoV#<bl`i<
zcSPJM**FlQmBnS{*Q2&}M(Dujxo>jG@p^~#t(yuNoxaJ<{t^fs_&nri@r3=G*uta;
z3rcP1Ei?8}$ojyYdyjrRPm*Z2>z^-~?b98{twrd-fA3V2@9AM|__sd^S@WiQWN#=i
z2p#x5%8%p*@xNiH!w3J|3^bD$M*}*av*hm0i>I7X`z<>~raAZ-1?W&TN@GTP{-zVk
zV%CBVZ+l`1k#&Y2_YSU-g<sz_tc%n1mfFPdqv8=d@ILh=3AN2%w=<t;iP~^{U>jEl
zbTZG33WiFA8hyBOV)8_}v6}*+1K*3i*E0mI5MvQ!sq*Pd^ruUs1jzcp_qz5hf%Evl
z;2xd%i<iVNL&Vbooy&b<E~%gQ_a{}mtM9(?bJhiP+7rdXL$60^{C=CeB86kOMUT*d
z_qjJWr7tlh=se7reB$es9yf~*)~72#Yh38b!Pt}IJ7YalDwWxQj_x(AN;Ku4or|xn
zY({E6H<|)E!ME8Rya!(s4ZldckgPAczyj#F>`&+EjEV<*z1=2ONp0|Z77wh?xVQNO
z`usXI`i8ISIvErS*$5r@@e1Qs-dIrdAibmOL>G2-UC$Pw13#Z%a4tpM6x@)0@+ja5
zr+1qTH=tuAHkm_-_bvIxzxuLV?`sDuXOZ=R@Adu+QI&GA*aSt%+ndjBk6tK8=)m{V
zKkCFiHcT62)NKsQo334T26VoD`b9)nH<*Wg$5+>|U%MuN(1Gu@K=3~J=~=;08X>6_
zMM0|L{WHk=!1vNqKJ1jdbmM8n7#-tLYmRL#pc8nlqcZs9TxfvC#xhl)vz#}eGojuc
zwo{{Re0@LZ?8Bo8LJ5QpypR3I9Hq+~U0II_R#Vh>N^o!xI`BSB-?qF&iJp=!`|hj7
zKjXgNj0@IzgQ%kKd}qJA5VMNlCB|T-K!gr_FG;3y|MH-BnJGWdI_(ZTlR_hO;CrQN
zD?5e!!-hFC(5xSy&~2a)I`Db^og|c8u1%1kt<9Ra%32oHhXd9pE9550okq=NTK)a0
zOcrOuctB@X-{eD?+onVr172C-chh8bgbsW!&uu0OGWqYg(%S2TwFNgG&?9u<omKUt
z%wP6mz366#xw(Wf4@OV^o&4W_uzxP}|NSrAxhgxdxoBG@VbT4@oGvJjFdfi|$L}$j
zC}Mi~n^=^|(~h@U7oh|1!#p>K`espDLvegDA?R17@BjXwE6`pQUxLh?2AD4P9bCFn
zJ|wd<dkp3jJ0`x^QXlrL+Z|4?78@SOM(Duz%0^*1(eW*`Ka-bzw=Qz^*dlb`$LoK;
zg6~!|<3Avu=_(V%@u!U&&@u2Rmo7X$6t(@KKyM}{?zr*~tWOx@NOQ&Og)0&6zI#Hu
zh3SO|9e5x59?qO=Z5K^e@OH%}ar&~H5jyZbaXJbs?Rm_>0$lz)?6T3(0)P%RRk*d<
zE=fmF;$ivQ)x4n1zhHfaBD)3o`mY-QP%Q1-;YIx@N9e%&R5`5>sNa+sQy}|BZ%fQz
z=8e#S_vxJGlv{DQ9>-6YE%GcQc1r@#F_&Hoj3yOGnI||1{k-_6c>f5jPvb{1$?7W}
zZB1`b2ImO#ooWG{i|y4n#cnBPvgy$*_&vW}?v2oacXm0$tF;jHlnd4MVR5qEWJ(^P
z1MiH=()yi{=(Ocft!T1;*%}uI&|#I{^*iCXJQzX#GxFe*)ve}3u+D9|!It?x6_kbF
zqIae=dYA(dI`BUE_#U{bLu~k|#D6odWOs9*5jyZb8?iCcm?W=u|CfU!6IVtjQGibW
zyBb~BWlCvzhTpdF>AT_B1F$|)q1CIBjWt<`i&=|0RZn6ufQ}j_;7fEN>4UPvcP{MF
zEsxL$9e8IYdRawG8>3W_;90_S=c6|i2pxE5U51dYzYjg?OD~-ay%Kz@)wd7U=kRms
z_uTaWeoe|{*5A9E`tg9y{GYcT*Z<5Y7ut@xn^G}YsUvjYeYESST9?mW(O$h(to_u<
zxsx8D1MjoIJ!DvxU!BVAm)6<*{n^;)AFw{noosw9aTqt#wtpQvrJNM$fQ~Gu_-Ezt
zpFYM+{Si7(J_hLmIt2Yy^)bdh30TeDbdN{k6ZC-2Ge?K#N(}1B9EH7XBf)#ZqkG8u
zz>gQ#gx8*s-{PPLUd|J=#-F@wgbw_8rN4O>nEZq!b^~>&B=d;P*A&p1%V64EI#DVO
zjD7$8`kRtt7C`3@q3CAGm$XvaV@L7$`Y)-oyU6;$_xizy^`lM_io3K@?8eWy;FS&N
zka^CkQw8FNDiCA0b}uR#nId%H$LqU#Fo`2i$=*PsK&FUWS1C6_2fmj+`>maacXA_U
zj#JEvQlj}+cEI|iUGgteA2-u3wYFzS=kK{w2<Y(IG~=|85^zVP%`s%BSzv4tI`BTY
zO^*l8JYN<*BwOL8uROmhfY5>WITBIM^Aq@ya#cmu%R@%Icyk-9&zBaRtf*yf=3qZD
zYu+#yt#Ux;II>e~FQ`n6RGR7aTWz#}GoT}Z$9#L}nZV=N*LUWy9pUW)2pxFmhX>Ze
z)H!Cq9=|zBzhSOHx&IriPiT40)UeWp<MsQZxL*W%4r&3N;{wtw6aS_LU2cwxAI$>F
zy%9R_y&Q2xeyqO;ZyxgfbXdg~`%E6813!OS*Bh_rnSEI4_R7;dpHRk&1L(MZEjAv~
zyjwDs&q{aGbX=x+3#{`Wt+-s&lUvKAw>1q?E7Q9J5jyZbPnv8{4T+8A{&rk10|HpR
z(Fh%QpE;bq!`E-|`+B}-Fs$t;-$nsCZ=U}6SrJ<DeM<auRc))=2zC>!kM3s~=C^@Z
z%U8p=54`OrQ5ZnS_F?kO8MT)~6_M&UxEO1^(Fh%Q=j0ch^^T$3vKd2sPq#FDr6>?O
z@Xl^M+A3FZToti7ly|wM)5-ca!1_FT)tJ~vNG8oa{M5ej`kY=opc7tfyS=gFyxdr|
zjZwU);-HSuf%o|+UchD^xvS_$6!bFpO6v!DgbuvVjQ6`7F}KtUXNof`v?9GkM}L9!
z@ok+}sU_~$9WJ=9W*oMsn2yka@6~m~$@j>gyQV7UtDuxX1(PX42fkNe@gu9Vo}3p%
zcu)LSoxE&V0G)(>%@`tf=hAo|1=WR}J*nBB$ojzddY*AY`>i@cF(PsA&1PE1-$H~A
ze6Pc0V^eM0r0-FC3O|^4^UG}k9V_C{b7f8X!Ss#HgjhuZc5Z|Ye6PlZz3%J8H-gu4
zc?F&=?N4s5BkKd-s~F?^t~jC~;th4n>!Sg?H|2oN;Yj3mWN4ixvFxkgNe_(qoB<s?
zqfbYb`muU*_f78ne3bQ10HFi#^BbS6Jge9&_xhS7mu#PL-~JD<KDoyhMo!zb94W`)
ze?R65JgNnB_=ib`Kii8+GUb*$Q!Wvi_6Bsq(B&(GdIIEwX^amR&k8C?06HI>!sXqM
zib}-X#yfKq=L7fG!1@TkU@MT#?HRRZ7P|J=%H6#dp#wi&aXf~Uf3;pM*7GDWd)IA!
z3q<I^&*!Ar#j!tI=(r0iRXFiark&&gozblrx_w*yd_fm|r;#o*TO5QAe6N3Q#OCj(
zW#hsaS&|rxda&44u+I0|ipTNa#-SWb-JV?LN_>a`bk6h34C5YKys_A5abBArpGN~a
z1ut_v?q!%u5tUuCUq2LNLm_nFeYP-dZ8h3#NfNn3HS252@A_82`pi6Y4~|VR3RC&Z
z*5&;uk}@8l1E0t0__g@?q_ZJb7>&rK=`-@W2p#x&NS@l@#lWMgPd;muEynSRm>$qE
zP4gvR?J*7LU+Fd}(lrwvT?XsJLiS1^>rGwv)wgz^L<vlY(-AuGK9miU<+%MJf<?dF
z`AQfK3QQ3?@IG|vzvX)Gx-J`hH!K!Rj3Z?MboPa-EX{Z*E~kw7H&uNP447R))(5_q
zDECFr-WfWUV84xE#ecR%g$Nz^ULqUvkpZ;*LlF+eCM>PX>b8JRRms|QebcwY`Q#m|
zRaFW{+z1``UTWFrFDQS^YmQ=jp&jq^$9Z!RSs(abQoUa$8Tx51Wv<Bx*bnB<lmj}i
zm3gGBzWJSeb!(+KE3bp&jL?Da^?P%@dgDrf{I2#?IAi-!kOV>pzL)3y3+KY8l1^BP
zGCtz!QAF-9fc4R*FP_Gme;{qFBdYnHrQ}a7LI=K=68jVK7jad;gP(l4ux&!O7>Lk;
z?{#JUkIvpF?eyxCF3o-mwomea&T2uhghXd|E1l4szaHC`Jq|(#zSrGn>Xp3-3!QWY
z4Y{*x;|th%u+Hc#Wg{B3=n%(0ucWzfWwtPYj@6_~;82H_ZMDW@JomGKc4&kSd@r1!
z?a!il&PM!t9ho~#LCh2g9r*Dw@_OyTQe21r{W|^!-eukSzB#Zy7hlpB+Q=31s89dG
zXcrAg#v^p#doc^WzVR@sb~vh|Z=1a0<8@tx4t%eeqJ+kG;Wz<UaUq;nL@F`#fX>V3
z<gAu;cTv7&t06zbt4c<{gY{wSyVxW%TerW`OBOOfNHda-(1G{iD=>1ML|66ESvMSJ
zrhOkbMd-l$7#P?#Ei&XXc>hqM>3X|o!2;-zEiK_%s5HN=8QP$ovh3fUoki9MzE|8o
zUu`|ATWyoqWwGj!q1}ZD9r#`}l}6ZuS|yw9lM7r&ui3(E0UZS$Zx`G(-^(S_EMx!3
zXQsFjI`F;H-&+Yh4CN8^BIR1lO!;<ea|T%-_+Gr_FOKdSc-*z3rLkMj!tpBybTAC6
zQ)dY`b_pXb^E2L^({ToLsBqK&_gB@JC#gkBE+tX7ND2Ttzocg}cxc(4ZwOtXExp?$
zxj7BiXF%)o?$o<U+RrV*hKm~cQRN67`0?@>KT~GxwLwit@b<p3@vQ=Hgbw_8+3Ma)
z%XCj449FMMOnyQ<CIRT|rdvoH<Z)WHDGGdDPEY@}KLysO*^-T&{bQE>8I|`3<*M&~
z)gpA@eZDm7>MxhNpInj4F5#1wYzai@!287AI62t8^dy;B>cQl?2Um|gphGH#I#3pU
z#NU+`P}xS6#ES#yycI?{EZhGsBfTGH=v2i|*E|W<S!cpBeB6BQjQa<AN>MqQ&On3?
zymN<P(jaX@vY{ip+aiy>_cj`#1Ml2Y>KfN%=D5_ZCR?~p(mad;bSPglpBX;hKKY3!
zxo@AV?~a{7)(5^<@fv;Dhk)Rlo=YPCcx5a9#Upg!d$HO~@(`WTUL1U&Jsy4B{7xOv
z*>Ss`e(NiZ(<So0i)LRg*iayJ;Crbm5?0Y*K9Z5lRyZ`RXPb?VBkKd-tKp2l;q#1|
z$JS?-O_?g0)Y1W+d&gJq?f5O)u?WdImFT{2(?#gO_wp!aU!7DNQ{FATa8cXk)eH+l
z2fmlEU$c<wo8D)^T$eD08hyF5V_<zOnl=3l0_JP_-4@j3K0UdXjnIMbwHn3UHo8fg
zs;l}+(<q`i(H5Zt-|NS=8$o}aPryJ}=I0`2Ss89XXZt4MYhrWyE4|yH#y`s}&#jCi
z>jU3Q?EZJcorn05)YjbR{8rP2%Mm*8y?C++IWYG`Y<?VCHvc+4eCQ15JSZ#hG-14w
zxyG^eUhd}8ZUKZ2e6LFB*h^j`{`>cm$n<mnEo|(MAnOC)>zR}3&g1d@XGUyUQMHL%
z=vqLBuAMq{cXCwLT5-15lG@>lH=v_$Px|(oSsT&vmA#~hGM_jJgbuvVLs7l~k#h}8
zAMm^c(@6hK;vjV3eR^oE?5e607UgQCPvm-CZ!`~sb&jXN3~4wQ^7vpB#d#%hegq<P
z;Cm?x|8Ar<j_NNUi15g*d+CWr=)m{7mhk?8qVC$;_TV7tYLw?X3eXwl4JFhriVD(O
zxEpk7%Kj5}2w5NaUc?v|vAi1vI=v$X^{VPRGw}!=_+I&4x+^#zFZ42|41}DM*<)1)
zbk?d8SfeFxBykxvX-v1csZbzv;Csc4PZIDq$v7<se4Y9!iT`<Y5LqAiUg@`uiPQ)T
z1qZD2;<}H@Qqln(lR>UPOz=(}A&GDL<u66gbP+o6z4{Bq#r*c0{DmKs^xi5AAY?)4
z!1uZ@FO#kA5$JPPhOCd(`bo;{H?ThZDF05(Svv{$tSCxj+e!RvK<Djci*|Gz$-eq~
z!|b=EImxC79eAIJdWT1{vN)TUzuWuS5$DHoBXr<>)GC>V;(aY}byzj-|E>|*Ss6gq
z2R;vNIz`_PJazPup=#0jOSz%t2p#x5@?_Kat<zpN2jrc_?|tw~bp~{T8K~<g{^_n6
zxTomKUcHtefY5>O6*F|kwM+6BHg}l$*ALYx`~7}oec*dxyQZ=@Nb2(*zKR@k`_4*O
zi_n43W1PR<c(KbnQH<s6g0$Mhsz8Jee4d<CbFb`aj)y;{<hUR1)~(9}I(l(jVxP61
zRMI_3eP^h&B#491f$tSFOvgJu8)T>RmrK%Xgq9lH2i6(I<9266YN<9lr@i7uyM`+U
z(8-%665hEO%Jew*dm3hErU4D;ghkib#YqQT|7*C2_18TkheGJU`*ifjqPR$AUj9u@
zyO?8_;N8~?)+gb)OXMGAt$QBfab%w#YTk_pbTVc`jxK!{8jTZumLdFmuTUM(dEjG5
zHkXOV-t<B&zC*SknF65$?~|NKetzek)uS>FpS_|v5}(l?us$DMp4X19A2@^uoL59E
zF7T%VI++=1`lbw;*I!rfeokhPTGvJB!1sD86TA6@@55WYrkn$9U%XKkgbw_AS7j&}
z3A2o@Hj4Q>Yk?E{c=jt;pU)9N9OAmmNl%saN#fg>wXy-7to~yadgdelC`!QztH4j>
zrU)H)AENBoZuYjbd7rBbefSnyBDfJc@IHE*%HrN8EV7p0DAM{&CWTkJ!TL-+Y;xlj
zJrLI5`n}FX+OJ=T(1GveFT_Wh%$&GI+WVZu?XmVfXM_%XuM5H>3TN=d4E6c@^b%u5
zP6Pm*#LdXpqs=0BngjxUg3n(o-0VWu2fkMgnTpJS$-E_Nm!Rh4U7yZcgbsYKhuwy4
z+s1$79PN6%c~Y@6-hht2#8_F+<&)T3=e#NJZQIgI06N|%-R|9zLZv-Y^1f>4D1-ek
zV0}Vgf5oVwf2AD;+`_Ty@Mmd8=)n6>PQ>QUQkuPvH0X6A&!jdD1at)CwPYu48{TwY
z+Y{x#*qI@Z(19QK#vB`q?|7{04_emZ1ImQ6PzW9PUUE;8&-Y$)D-~(Hb}52E$PC+w
ztTWufeIGz+G4A0}mA!TxP2sqKLFmBuGMsx_g7IYf$imaYdu>nPSRJ7QpNC81NQvQ-
z=U3|^DVhKMd-{9|KnM3uU)VIt!DYyLruGSAMoJ$RtWSZ*z_nDH0W!0I{^-wt3g+Sg
zox9;4{~Eo1QxJ4=U7yv>!>R*1b_VFN<osUD<p=sv2W6{2C;%PWt=8@kA+JkaS8MO}
z*(-$feFp2JOwE$o-6bCRqCT@(g?sRIJfPzg&qZwXAySCWX#~5vC7G-a=va}~<1OWf
zJGc=Cr>xp0w^IN*F~?UI10MztuEp%pt!!s7_H}^u(F|MAikx5yr7~Pf^G=gfi3fB#
z4q5P0sEhjT)jw{ZFm^Dg13LTFwXRP0-hJSlTDsXlP56rf&^gD!v9UK1x(a>IY+pNA
zpXcHBtYi0%vpxRC`MyYYwTnmSpkRO5qq};(?hBiYu>58BT&|q5LkvO({(aETz7IdF
zFi)llI1bTX`Nwilh|q!G$81e~mr#7^zFhw*pC=H;=-UE1L~A7XMR3OQx}ULpeAeLh
zgB#GPVi{GSxU1Ma9G_7xeJxaFr48(Oai{$y_xXA4enqw`G4rFW+Cqd5{PhAmZ~X&@
zG3Oyydp=vuVV<@#LI?i$`Gqf2RHZA(C_(3sE<y)>y!s{sip=%3+L_EFX4_@EM(6>Z
zrXv1d?Y={dZG19PRXyI>qpe__6K?Mto*m1;2#3C>WHQC5rUN?SBIsMz1!ue!Ub8sM
z&oRHz1$5{``vOlCd#0AUV*P{iT))yIbl}Im*uIxXe>-cm>#c04uRa_1YztVQwHLz@
zThlGy8;zVdrtkYUW+Qaq^H}W_wq@TOkh8dp6a1-yK*<)N13!Pbhl9>_RoT7?ygopE
zvw2sJ8_+qqWBq069;db|(WUZ|Xrk(sPssYf_qr|rer54q_~WMsZ|}*MniZBKbl`iL
zs{S&Z>Hf6fv&icao;^6|4Cs7Q@~`HNyrVp2@zr%^dev9}(0Olsc(dvPg+=*8>I&AY
z)cl*x$ojzd^7uJ1FM5gpJ3}8~xk^{Oe>tF&B{#;se!<cBhw*ax;}O+*XF$ioVv6G4
zU|`|TrzxaT3cvXU03D(__WH$|ekN@B&v%b&FCA_+f%P#qr+LG>s+m2ie`Gx6d0C<y
zp#y(CrH~9uX|q%8hnzk@$NSE0qq588Y(l|r#y`(=SR>sFeqCIsCJ6NuCVCG!wFu{d
zI~`xJVtY-Jvyc-A=y*rmFc#!`zLF!*nqE;5Y=K7Tz`x(h>*|20lHYA<$l(Tb9z?Aj
za-0irf*cf}GvR7|)^<465pq@<k)4O|y`EFE-XW8eErJ{@pwo8AZbG3krUP;c0iEb)
zhFkpCF~1=P1L%Z4WEwsg_{#=4wt$Xnt<8SK#z-3EpaGpT(uLCDS0>*;4mY3^WhQ;}
z%s4Rza!`Pdoblai+~7B5khAg;?EG<@Bxi3mnHho{ETHrLPf2ure*qeD3IUz35yej#
z+3#CG4hGOEKJ*kB6vo+u99uwV=-PpQ?TVWU<e&ka&M3?uR>?Lk$l(TbjK<d_`Pv>3
zKn@Df2}w{H8lnoxgq)QIu=8h9*5QS0C!HtcU;&-)+u!BV|ERM=P9dPf$JeFQP&SVT
zIT%34z_aE>-v9n+59HVaIzDNi*VijG>mdgX=+H1H+pNrYU4a~KKu1%^NS3CX*8p-*
zfDTcss(r0q>I=wO`2cqQG>Y?9-(qjS4>?#s$4M$r_2I-o0pt_{I{gM1;dcqwyC4Sx
z=**Z8=j>kcP=y>@Ku0|?e@};Y0T*)6fKE|vN{QX|^>2{F4d`5<8%W2mT55(I6rf`r
zX+JEdyP69*EA?RKPgbdtP9-4&G2~zYooM3nS^dkeLm{US&@uZ*GE^*Wp8`1;K!>};
z2;;fT=m$BrfR6V;3fG5=2hSk~4d}Sy2Ye%*`F;pF+<?wmZ*Pr+Cnh%_2L<SiM#Sp~
zJExpJ*R9lnoj*;v{}{;UjZa^9uz(J4l~AC}qol{sUWI^;4b$*(`IoiR^BDu^=<avp
zACS`6LG#!GIwq|0<0zLm|Gj<zI`6u7&eD4_9YgbQ13Cd4WrWKTT)}UgzP*t-#`8u2
zIwg_e0jy&Dwd=3n)=&QAAy}zJcK*OWCsDOgNNVpkcMW35BM&p*;wVJuz`xIBbW=B9
zgG_0?_}t?rSvr|zZ-fqfp4Znsl#ER-lpKc2zv7O4H6?-2fxmy33;*}{suZaX)ENh%
z1D~f#sI;bFtDEdNE7C~Q2D{Y!9$9BW*v~IoV~m%=@?KNUyykFO_0+qE19;qd93;#M
zU#&OhYm<KO9-8|)3%C~#)lQpgIB(K^f7Y8;;nKWpgbq1uFDq2i*WIM;C5CrPz5iON
zRr(M*tT3mrMX0@Ke1LOD{O%>G4jbKggni)W;fpJb&k}3#8?}GmJ-09>*l3E-fq$+Q
z=v$-0O7(5&p<BhwylIqjAVP->wwLlP^}D!V-H)N`v=E`g2y;;UW_yIf3KPeHSIks6
z>}MnpzV5((p2A>}ZbH2?f5(5`pDKbOMvw)eg9n=@a+x!=XjI7Tb4zPT?NxEIeS~{a
z!JPYo|56zW)&)2j2>qxtH{T<DeTQG~)b^8p+EiSQJ&)E^QGp*aC=l*-9ySk!r_9*^
z3rbF+@<6;#DfUyk2p#x+Bl31neTfAX!NZ@AM0tgO2GApP;O8@uW?-PTdgKjZHKFeL
zH-vR72s^{)F$pHs4q+}`5R#0bw>ubNKzbg+kNZ<;*KUr|UZbmBF_kyusa_(zF5r8S
zq`ze1JeMw>Jb_cC!tMW99dIxHufMhMYcvEPhXT-vKkMt%_OPi4a**D~;GIcBiuYy@
zMob_l9^w5E?kxNzxfQ5Dm%FjdGxdH(52Fs~Xw*7bpOd*h0yz|b&fRWpw6kSNJ>>Ku
zd>w@E)jmBR8`Hl}VCFtvV{VKS7Z2ztR@8mH<cTdm@Y)`p_!vE<4(K!|UY&VEQABjG
zP^U=6uTMmQ(1G87T<+@Ka!Sijw@kOeuSov9Jz9h8IRSoMJa@a2;YSq^2|0y;j-NWq
z7j>f5J;?C}bRJC)%w-V`v;20VwQ1n0jYT7L;Kv=y+O3#h&si!zSz+eqt|Wj$=)gPY
z;Fn^I1M;ZWw0F@<j0=DI-XZG@pC{SZZa7K3gcEY&0UhmYCb)x1sf3WD4(Qx^lC?@g
z_(TwLC;%PVAKwy<yIh?;s3^bQAyDY*s|M?1xc&`)=EC6tG*3LB;}ILrKB-*e0y*k{
z&h{43l@DSeW{^Vx=rGV6_TIJrjfI@PDzHA?K_9<vi_x7kjOt(yit1O32Xyj&GgC73
zH&{Caj@eZn;nJxCIws0Ji+`D2;)FL2U6Ov3IZyyPU-3|WZUzDataPb9BH=T5eU)H+
zv>L4zxnEb|+h5WSd)gnB6A$P#M>PAYqH^1dGdh;}+q5~=5jybuhU5yBMPrp2MaBLN
z0)@)>XnKSW{Jt@_-peyi5JTRfQgCkQ+6n$>1z4ZWZPw&}VQZf&o@Q_#>_@Do13E04
z>(-L2eT9v-RxeS#+={w@PRGwR=9Iwx26J{7y;TvWI(k57^_te)9iHg~=(-p!2kRre
zdXC=c32mku_c@v>pJ#mOfR3W?QEXmgBvXO>IBSE|1r1$5N83qo&oKXz#!0Tl`>OA<
zXXpVPd|l^M&*`%q(Dgq07Fi$o`K)P6f6J3zZHHgfc;nGdR#-Md2Yx=YE4C?PZ@3Yg
zq&J7L{#v6nMd-lip$;TIBIO!(7=8Bn8e=cv2{%FqKF=?!?db2!z1F@vY8<!tv#~2>
z$ojyY#^`!XIk#FP`TQ%k{<Du|3jv*<yUlj2@%+womIKFPrZ%5#0i6pv8MJO6)`(dA
z+R_Zrm7d&y4w3OL`$WcBi;k~_ERI(<Css<q`qXT8v*sEpMMacfB*$g?-`Af2I+aJ)
zzO*`=>9qUv`RGUM-A-FTr=+STO@Vfd%W8|WRNT;Zgd3p)|9ujNs_W=YFVE0N)ockB
z(z!k;gbw`t2^q=Ny{<Aa^+G0sH`JF=99sg``6B;>RGRc3omJ~g97`%G>=;0Y_GzZ~
zmfd)1__aa`r^@U!G@w&YcX{B-`)yVwhV$0luT<wzfX?Tfb0&|*Xx!OeedfGxQPGSo
z2J5pvQTS;h@<S?ZkBvjfrqK)r&{2JHLv5bp4{J-~&&zn$FJjRM9r*jN6d@A1tD$>p
z*U#eeUG&d5p-1Sz&mU%c&jt0Q2o+ZjV!rJo*1^#?V10JVA8AY5ao^2as-pTy)V7um
z=t#2#YMbb8x$#JHim~7F*471d2x2JS1xfNd*M)KGD)5>-p$By6>BD8Gl-N7&-Mtgz
zDOad4S_IZd{@)2nZ)h`-*;lGT%daF%>446UO55lMm={SKMBGKq<8(K40Ug!N>Oemo
zS~JL@2XunB-zZ9LkS!NWwDbG^!Xp?h1ncAYd7#BOGdXuKk2!He;P(H0fhD5v8->5V
zSH$uEi*Oy~y=HR3om(-d$`sI%8PDPT#w>8m>C&wCSKcd^8_)@x5+>Rkm&~rQZ0B~}
zpC{gY4YrpSo9|?K{+YIz63Vi(YCjWd5jybe{i_+TqCZNL%Ywu56?VZO${Wxrn&FTA
zAU8-glf`xJ3Qzbe34{*(c==7~-1}s96nmtUyLjgAEHw_GgZ&UTciEFr>(E+YK@9JF
z7`6aeXZU?Jt{xX{X@r(YdFT3-acQkC9iao?>%5s<ufK+2MO{|sgg?qM%M{Q_n`7%G
z9pJEARuss&BmE<b8_>C7;!5+3X;pYrUos=++eGJPKC(XW=N3Qn**J<B7lP0hf}e-K
z0;c;AI`BU3jMV>|=Aa+7%jZ#`yFZ@}=+v(!cl^QI+$h)9(^&YEhcQLyz>j;U>Xq!R
z;9P#22if<p1Q)glAavk;7?(NDe{_9ext1j3b>ruks}u+wcpq=qDvI>Iyr2)dl~ow3
zi1(v;$c`7>p%)R9dVWMhPaN>%QC<F<tJ#3gdJNUjIWHyNti~UydASoZwt&v_XA^;O
z85-e6G(SdGc9a4I5IXSV_4Y7sQ)+a!`fb^T{)o6~VjMsRciuVi(wx=o@V@$lH?d7>
zUoKeZ4tqbx?$P(pf{u^#q9_hE(g7V&$;aec_#X2t#(qEDBZp;70Ue&eE2_WIpAV`N
z#4o(ei<9IAbi7B4_;2M%Z?5(}B1;!Pu-<%ytPlKnttyhbxZjlCfu1*-5jybKuR#lD
z#qO#aX=jf*4<RDaut0<k{5oBAryIT>ZHig&6V*3prWZCv=)mXU`Dn=}Nuuge6=Ui*
zL(=t)1<-L$|4y%V%vKzYpX~Ex9Md_QgRC=r9%<zfT;8@CBU84^xhW^?M%f4*`0=u;
zxOtt+ZK;m8oY*{0wUf^op#z`i@%UeUyv~0~1?`M4?{1j42_SUfKhI@XSDx7q(RkMw
zZS|B=D1Qls(1FjB>B?)m{yz60pY<zd#!Wy3n~kh9{JtulB|+J{p_AlAtM}3m+x0gd
zp#z_XO1gcU@x3?y_NdVOZV_#eIzk6N4{w@Bm-+GSdE!epgxQ+vqx67|)*O?IN0QU+
zvHQ5J8!cJ1vsqw$eA|nt?+~vugkpbaj`4j=FGT3T`?N9k<v%jfSFLRmeYgBN4Qq?g
zf%jQ(_F&#E79RgRTXUh!gyuv5(5bD<EXz_H!<ja+UW_gA^4WihtPdgV_ct7uC0jZp
z!bEDQcYhzyQYx$<bl`pdn2To8JyWFUPMhr?%Rl>}5YSnTPTuQ$KhKX}IxRcU^jFOm
zp#$%XGO|>soFBR3J$O{NAaW*20MNN<9%dHp(BX*tSAeNM`&ZQd3uK+)eQd*MH%U0u
ze$kd6M)gG-e5gg}!0(4r*Vx~AXz}%I_Z-$xVm=pP5IXSRL)(n@f16y?Wdk`#=Yc!5
zx2+m=&V3MXnIdN?k<xp#f^eR5u=7xQGUD;FAz|~P<g-D8riMJE4*Yzk#$R{;*x#=J
zIim>Yfjfz^CD)o(Tx7L%sc)Y1u(iP=bl~S9-OuSW{uj3vzJGo5?WJjkXgop(e*WZE
z1Pf66Er!wGEYI3Gf2~d((0TSwqLqC3Jgo?y))gyioD~W{N7q7fCe@^(z4#j0+{O)o
zsJ=|F>mmd<bGduySo_?~q#AFU!jgDEr)WC(wycST^w?rg+m&Mz19d>>^92^4rKFxc
zlSN&1x-xru3P6Vi{{^)`<+erJjjJLgUYezS&%ye*T|JX<8!bla`_C}ZW^U<PJVFP4
z9{%#U&r!DjEUKkQdnED3b7NhE4*WdaU3<&JYnwK4b3?WNzF%)2J)pC3i(+nj`CWLu
z7Bf{^-~r)i23Vgy<M-_Q2IB9(u;%htESGhrBXr=;br%1RoqLL|qk9}a9@}WtG`4Lt
zP8!>`ZQHhO+cugsw#|lZ8okf|UF&y~tE^m~+%*^9HTyF&d-mCLQj9&Xrmz&U;tlqt
zLdHHn+Yff$ujd)Z@V%tdo_$ZKMV*bZ(K%&5*m*x6{`vAnjAZ5-QKEb`@>yCX{G*-s
z&x>H67`7+QQEyFj-YYH3JaPOF9?$#EDc^YUKr$5D-s&&iS68f{-)SE^U+?Et(iy_*
znqhkN|IMr0AM9YfdtUe&2lU=GTP9#kmcBp@$4h<G=l%0*th4W1A=VrYITJVRPd7Rf
z-w*n{|NnN}&281qQ`nUMH_y9%u!H<=TwRIRVxH*^5@uvqfd!Ks1g#(JyuS|99=`#_
zE;Ko012G?MZ0nYN^uBn1-Y>rx<GFnQsxQ%pDgDO25^nmz<9R>-6w35u&;Hv#hCI5z
zJ)_zMrT<{(z0d2)!-j%IhAF9L81Qj~0j})_JMXVU7v;Qk(VtsD|9hV5ez1e|?tJl%
zKNw^?C5;}uuB}%zg`R!X`ThO=W*<Gnn&j5K_oX+@&%@x$M?3G&`{K|<1-m@;TB3du
z$b(#To$Ck3^}aLvOW?dtIESv59qN^WS++p+gPr%|GB#aUjz&NI#`>+|+V8^X-$y&|
zk0-(?1WzTU1NndJ7WNMw&-?3e)&O@YczLO)q1pCSOLnRW=!2d2e;1%1qj?~Tz<3y1
zi?mO3E}3!s!FlZc_vaU_RLGp$kKGbP`)*%$t?55{U%bChWtw^X#`kxjqp5e6#uMz*
zK02=VKK^0jU$mQD4;r#(m-HT@y+%JcuJ`ACN;u5(xL71;+OB0grNg!Kqn-E9WrC+|
zqGp{@*H;DcsVo&?_}mX3&--<YUPiJEBdk(%^R-X?@`6yF?gu;XeYS~;0@R>f?s64>
z<FOADVUvHb^Zs~#2zlMZa&%2h<!e3hQuV4Gr+(~t`o6=Qj}}g8u80(JTH@w+=IUDd
z$xe=|s%G5Ih*qb;kYFL*-!0Qmb_}OGaRq&#Y}nntX0g&VEs}q-Gk*J+-iHFEty6-u
zF6{+Ia-8xxpHZ$xcF^@*J$B3&H%PJ6yV6f~j0=;T>FK!eq8D|TJp4s~Oh4IKiQWT;
zwW48=(l!(k3pQaO|753?43)bvXLATmehHUOD$n9L`Ex#-6GqfmRIbTl{iHR<p%=TQ
zpX@ZmL(&H0!`n{9sr9%7Of8sxvIC4d;)X_|wpXyb*hwR5iAes*j<yKL3=@Q1;Oy3+
zk#HVF>T%M?eBRHibHS$DuShBnnc0)wwDy}Etsm^XzfU!UT%AFQQ2J@~G%XtJ%F10o
z+1Uvjz732@zhAed)!<Rz-)H}1CpWo(6!rLMR9^@_Xuv%H<8R`}eBO_X9$PIcc=S&~
zFM2Ul)8VCR>nA(jknPr3wH687aWyb(@q68_pX`)n$ljgP@{MrZ*KsY2ucxqovJ)CJ
z`jgo`LppYP7(q~jgY<90$9&#Dzj$;P6q)KxzA_#5Z{aqzNzQz-LvmdXTR}-nt8GRC
zbF@a@T>8Pz`}3u?<T4tTBF5f_U=RI5$FpYo$xaRN&udviJzSM9z+9Bl_|4>>?5y2+
zfaH-ui723QBTB9OhCGh{nDhH_NikV>y{<)G(=9S+GMnxdmwvL-;h&}}+f~Cvil*xS
zM>A>D^pl+ez8bWhoI6C3l(2*aTeIKfpX^w;^__A<6vhw?YU|6hOVS+2ea;6PC+1+~
z7W8d>0)zwYglD$&lO0P&a|kX7k^X92n|i~evp~~Nc9d9$F7s3nut?mP>(R$=e8@l9
z8TXshyb8^ImYQ)gw&V~3J&ygH4<Uu1a4X+<O}F7?q)*z;e(5JW742CiKS5NRU?R@e
z{^D*-nSQcUHHSs!hC*!huaxWX2)8ng{F9x&3l_W0IG-Oar+IF?yeQGfF`x6HrgRK|
z#%SE#Z4j1uJ|K4~{bWb9^Hh)9nkV?7OVG{hb?VXdlO2Ph)`Kp>_AGPTf}4pSPLSlE
z>>&CtxcM8KW!my|UF$v=_8&)o&Ig%<FC2&+n;%Y4((|^xai{c?9X}+)vRMUGs07p*
zgEDuzL(@-of|@4IB$pWng&nFgC*6X_$UoWnvWg(hZ$nXlHfJ`%6Pmkl9Q8RLX(KMj
z>GH%eav1BY#5D5l(oc5O4uU*XBIr|*EU5Kpdm!UYKiSa$&Q4*CSv^njv9HPCK#(N=
zWCz>hR&!1(!*=y(f`SnHS?oCSb3X9cg5PPgd6`wN8{cx*NoYzx*%`+PR3b1Gna+Wu
zS-02HW-<L_htcTy?Yo6l-*MR&p*x>;XYx;WJnMy0aw;uA6$U(GSTahDk0U<k<7vIa
zy<Rt$%nDsH9pUACQToZwY8d6+S4}83<C^n@<S+UmrXTFQ|6D*l*x)&aNV%ZU{zj5{
z_!pJ^gPr&57G8os56!NbdF1@KloE$1V1L6u=Q9~%5l^5DlKxxjO0|2=GPw1Vof~Yk
z!j-rSzA01=RLNi5z^<R{WH-dgpz;k*Na_+ls~vPzuz#|{n}Zo4PG+-eh_!l;D4&<}
zH|%phXhj^>W}H8NxQWG?g=$vCw|=stjdd%zgWS@&d0~eY>;ZM=`oYfoeIyizClG?l
z1n2+lNAZ8K^ZxS%Hsee<8{Yc!K9TX|ku`!k<_A0Pufq&{rIj9KhmOjn+Fa!%HIL=c
z&p8VWWV;^)oUZn2mJ>V2RMw|{u=9RggbE>2D0Zy8|J!G?{b1+4b8R8Xk6e$3wlZ%|
z;8A39GxiU5-uqC}mRZrpT(UnQ|H}*w#M}BC@;RTqF%rtG;?nT>9nuF&^E%1aPj)JM
z!zY6|<7!WbHfwL%6{cK2*m>_<5(QzK992~q`&Hlk%PY&R><2sVeOA1`s9}gT$~fux
zpv-L&IwF0tV>@}vMyf3oooqKx#(jyuKNI{h=lA>13;Qr*a7O#lbF6wOF4k&uAMLy!
zSMK@xk730;bV6^qfA?8Hi?JU(p7$L-5yhJ6g`&k!%j)^jhzx$&Pj-q27nz{1E{FcN
zZ;bTGj`GtM#<rBrP({-?30M6$_?e)OIlmv5I1@c#pk8{(#b~<aI55Xz>?b=>QGWT@
zwyA1}rp2(qqrbdmKiSDPjdp3wd&_5P%&AJM*F`}3WQQEQ9-{uom}upT+jM4u^2$u$
z=X@l~2YY6fg($|<!E-XNEqP-<*>M2I-;jIJv#U$*5QeD^PLus)=a>5oX~r2bF-~d^
zLRVHMH_|6N-pQoS^nvIm*r#HeWb*0ZGXWp-fqD1-G-O2_#3^7_y?U<vv||fJdHI8#
z_t#-OHjw&TfNTb6cpZ!)XtICmCp&qeO#|+s{An8ZpbZ3gSJ$c^?7Uwex>C{&O`i0V
z`ULK3=JCfDlYg-Deq7ekZMByhD`fwBzjN&WG3WR1E6K0*8cTfoOAjg5d^NWT|IU1{
z^Zs~>*$;N+g_&r1S0l706}lp0KiGNyT*l(J>8c!VbH2v_`Ci63>8AS0&b!MA@K1mM
zKmZ^B5C8}O1ONg60e}EN03ZMm00;mC00IC3fB--MAOH{m2mk~C0ssMk06+jB01yBO
z00aO600DpiKmZ^B5C8}O1ONg60e}EN03ZMm00;mC00IC3fB--MAOH{m2mk~C0ssMk
z06+jB01yBO00aO600DpiKmZ^B5C8}O1ONg60e}EN03ZMm00;mC00IC3fB--MAOH{m
z2mk~C0ssMk06+jB01yBO00aO600DpiKmZ^B5C8}O1ONg60e}EN03ZMm00;mC00IC3
zfB--MAOH{m2mk~C0ssMk06+jB01yBO00aO600DpiKmZ^B5C8}O1ONg60e}EN03ZMm
z00;mC00IC3fB--MAOH{m2mk~C0ssMk06+jB01yBO00aO600DpiKmZ^B5C8}O1ONg6
zfp-G6LQ~MLs|RXp&KaCYT1PR|{N3EaU^%mkylw1O@hNJI$qM?`!Z$QJI^x?J`T@1q
z;vN44z`n0~G>b3|U|MgyR*tC89Hmr_RbN43$m~Bw!IEl-uoF-ecv-Un=UH$xm+Ub}
zRRzw5r7j(rFQ#xv;LT1?^IZX_?NQ_uCw>>}WVU9+mW{zla9fKQAkNJk=Wxd1{QgyD
z6j4G13Vs(l%AGiCX5P+n-q&ZFTsd;C&}SuwrxrpnmsD8*su?Ogs7{?t(0q9mybl&{
z%;NqTv#EK188R$Z9miYRK$?xc8T^YDvDq4OibcN<dr+%r)s+KwvzDD*zL{$KtKHhH
zKW+;L@#Cd2yj~RBT8B(&oFq|<40H*RN?z!N#7kN$#zWzFuQX{c3HT(QF6{=I&aj?X
zrX}0KX+i|m)3w<vM`s7*M1%rml6VF;39pG22PwC7k-WLCuwx$<^Bq`*Pb2Us=FprT
zzn=&Zr$82!)6r-~k}$3rGF%uN1)I6@UkFAWeLfIA6e>~TnY3PtJtflZ$*yuqvuj6a
z^e`-uXr?>pf&z0UHwkg5r_cw-&OV^|R&Bl&1V|i{TIVcamIedbTmioLxp9{pP0hqV
zX1z>;S@0DdmI*%%XJ9aO(Th2OV)skFQ^({v{6JM1PhB6!dR>3}L-q1+%!zieO?-BF
zB5C9@RAgO_Ofdv#kwlkyetaX5J7o82D3sWL>LS9RE>P$|77^0c6;6VKw7-ROe0l@&
zHt3nnY*)rt9BJ^|w_#XL#tYXvKHu<6EPKlcHnQl|ng@L4lT<6^ngHFr-)`WxC12kL
zR1MdB2tD;cHZnL>N`$(d8^jw%cAFTv@6(~ajV0O?u#%Xwjng+Yt|ZvB-w0djCXM_d
zHYl36bBg99Qw^&Q|FITKQ%T7JTCL5rF9tRKwY1tGIOdMt_)s4W0#{+MCO~ou>weN^
zevU5|OK%=c?#{m|zPn+Y95fkA!Zlra=5-5hRPga?+_NTPv@%pnPL0O=z)DFbA<0v4
zAqR(!cebvoJ>d~gz~Q14Z>(k=_e^hzyG@t#_mF<H;AZ=c8cJ-@*R$BNROQOq#(YQq
zWBYN}uhxue2yC?GSfl#t-a}nw*(p~QM~iExZA!{xRNpfw*NRs7;Bno;A9*hch*1A3
z%k%JEws*wwt(P@zswf_j+!Ysd5fKzGp!Vukc>u3HIqDw?gltPDY(EtXr@7?hJUth*
zshGDOt2X|%jlg#N&W$kXQ&f5|dYy$?UC97iehWRBY|>;91HTNr8@l_$Nyz{=y~d;<
zjm-M-l^@1pD_~Bpli$-T(ZRzJ(Hg_p@5(46Sroo2Uby0$NOC2Mbh*CDJmQmjh9L_G
zlVE%*Pkd`z;9*5hs*HDhjV|I&R~_V8j?~+FlicDRUBXaYltx!S2-ev*9pY5M0ud=I
z10a?kF2@PQ4G>ll;f%_!Z8{1}1nX$_<@dkloR#gvAC5B1*-n!-Iys~sc4z9uPqv)p
z-P^85*UhMU+KfuI(PuWyD8F7nVoRvjC)Lp2r$4{Q(6=4p->%_oXumk$rlfmSztH{z
zV{QNSz4s3;SfI)@KCC$Q0)NyojghAC^O`?tjT0HINpp|#b2!X12>OXVRvkn%i0f*W
z?38=}J<_+WQJ}m#s3yuf{U&;SI<C-PVPXOa_ycQH;#Rnb;hL;mD_1rcm+`_k*~dXQ
zHJro_;@Zww_<!0KstRFF^Ar0$&?AYC;;zY-5v7UX$mr88$I+twed<AIJW{uvw{daF
zGL4w05`P^FvJZ@o$fDqKY$MNMb*h_~wbESL7}zRJ+bM_%U#}|8`OLlg2{VD#p7y%V
zopv4TXvEhLk8)}u7PunSW+T_7{7ixk$aUF-9O{%Xv4Qzrjh_Cq35bSrT*;EB;y1PX
zvUB04;dYXMybg0Z^yOBniEnMRR^{<2qjs>bERnDo69-gLz`V#0_4$cuT}*$)R6Zx>
ze@-=sLP8WcCm@Qhs}YDd4i8kfRCctix3p~3;p8_GbZ}8@%+gde6f_bv(bH0rwBu~d
zw6qiwQj<}1(o^D6wBPrz+0%xZh83)(>%Ma@L^2j;%h@K7GeH7jkOT&WK@0-Bt`@~^
z!1(hciJU}f3KvY=Nf6aZ##;wVl_1Sq`h;)tY9$f+%iB0Z82?O*397pK%cjG=uD$^s
zk>=7Z!XKG{7Eci3PkOFzH_3o3WJ6_W6eigqmD*>TX+gihPl_V~^@W0z!wBkL=n$kf
zQP>6xT_4KSahsvw>m0#;%QEQSYI4F?#Ot7{0CeXreOIK5WXSfdR^8vCX3B|n%%Jz>
zuTyVzKMu|Fx@3JcNjy%j&UdH~&1$ML>ej?oJDMS7Zr#7?OnyxTcU|pD{-wN2j}$!J
z9Y-M!o8oU&Rq<7booaL6a3VLUnL?cM-$O>BoeFRf`fpOHxk*nSrZLH5a%}GVLb{NI
z>l553FWg_ro?|cm(9oOw@QO<XnAxy?f*XPEr#0v(ExWtk9C@WIbV?NbvynsoZ@I&3
z3;b4`#Q0zss~QpUGmgmPdcsD1H(!m13DrpW=yq<nVPq%-g0}4r<^@eBF=DsKfvIu&
zei0wj1)><KYV*}Vt`2|q)9N(Gmb%GT9E?^4D`uCAeT=jI_b7*%^KUSQd+a*My8klv
zTfp`YF#_e+C@=Q$+!iKk!>cU2dJC2w;h;j%`Me&mE7lX2dh?gGHEFzQ^8u#8qFoTG
z*i)go9{rLg_6cL>#ofi!?bja}PG9!$lM<<aR0Hi8LbT;O^j$J-VDYTpg{a42U3UCh
z<W}HH(c=SSW%$cjP{7_Kmq6sAx&&f#%Mo^i#jWA)F?sPN`Hdz9&L%^j(ePAH=2c`-
zKxwgFUi<cf6e$aCs?ma}V%(g?)n2+KJD-w@S8Bu0En{<ICRsB)RLRyzB)?@$$;N!k
z8>JcoPfTqp-xg|U;~P(G^`D~s*wx~xlp^J*XW6htd#MVHl2Z2*XKbid&6qA>Df4i3
zzM->@PC*=huC?9{wx_!~lt!*5Z<3PL3E3`u*9ax9L$x@6f5P*Bm$Xh)psT$>+E6*K
zw+dLa($np89Sg$FOnK~wAiqHq5dW?-7nhhtb|3bV65Ehbr1oVdmBIX6pX=(ljl_P%
zR)h3brfXIN4zaq3*!U}hQo;>6+fa4Eg~rQ1u8A><^-OUkHLdqNV6a<xd|Xh7k{tX4
zF*$l3DRAjK&e)m=M4mPU`m|-QzZzjgV%IY`?i_Q($pG*Kvg>M7rj|>-*nb!2Yk^!}
z%!DTg1J~G?@#N+Cx@~Aa0VRGT>55K|znocKy8Dl|F;`=dnkzx4|9+T$&JFx~{jNoF
zv48F6dcF2?RO2@%!3#Q}vbp<Rixt<R_Ho{HNSoP3G<%N{oy>>*#7TUDLCc)0E9aHj
zc7gJty^ihXxe3EZ%S=gg#p~a{m&^4W*Kr-!m7t#4ipp1$rHiTHEVtd|38m7`Y#3bh
zpPl$_?y~z)I8ol19vL>w%W7u`1A5LYI}j;LKTjl-FJQ8c262Y7RVu_>YC{j3G)~|R
zmQ*CMu*LR=!|){8{?umDy=F{XjYz-sHQ+VmtQ?JdI29}-&i}VS<LX+Q3c1<crgTnf
z>6$fc85~e%emwlm?U<=u?tT@$OV2b*6qS0F_Gi`(duz7iRk8X;v}D;-HodA0W7*)!
zh-Ip~>C8~4{}K}8+R<a^eD~kY*4C9vM9y?H%PQRHqG8_o*<JkIoOCWQ^jCN*{t~lU
ztf_%s1DuuDcCVzDN!|vbaAS22rWc_4IsbFp+F#Y`sTI!B7I;gR249RLgJPSF^%glf
znx41y-5VHeG-Dfia2iaGz(R83Ak!=i4wuQzTyQ1hPNEkLO75&4roO2)P?oX%73ayI
zsP4y?BP(*mfC<;M0s<R=O@(qH<ZzKJLPi5qvOW&sL*eXa+Qyvp{p#FU!*DpU`gAjI
z!5$pxCSXv%exx^?&c(uhEk&=v?cZ2KK{|3xf=0#PxXpbHv(ZEL1DRK75~T<dPqO?(
zf=E@bb`u|u$4%N5bRu}x33YBBZgR`mwy^|jzl?@_>`0fRzd(d5y&#RNsgcI-vTw4>
zx3Vc{=r0JKpqYI@CYWjcA%6i4xU2U7Y%mg@0EBg88WL=40b!~YS^r#Sr9db?UzQ})
zSN0#&>*aC3tdspqh*SrLV+&wR8#7e*NwuSDXYrA_@pjBv`V_t|(g!`0$KippuEwB9
z@}=cPv|W+LR-k7iOCFobP<cZ5r@&hD!6}YKH8&0qTyp#tth{p@F~R?3zmGe;JPrNe
z%KKZD={mp5b2lvUL13I&YHF>xW#8pWG@|s+@$k6I5!=L65*Kg=UGM3p0w*qi$dYPF
zqPs6j#|jNHl{iPog*<U_MvA9k5|zUE2s$e>Ti&zRw{CvcYQLj?tps`J>bjBm)vy62
zu*WvPIG$Em@(h+IPeZE}-ID>*Z(8>-X@8@o^l-w+==jAqK>CI>B@{-j>n3f!Q92&>
z1m#RV<N^a(`A$8d7X&ujLz2=fX!yEQy8KpPh!j~J&#8^n>zrZa`#b2q+ja)2Or-=b
zxjMxIH-$9bI0+gHin##~vqq#-Tz<kY&YdScnFS<a96FJje4IGBrAv>qG?h3?=Lk}&
zJt;5W)8}ZcZXl2SJat+xKh|ilv45p%!4hQI(f$a+jq&;j2ZPgW=f(a9N-ASJ+evsz
z=BR-|o}OviTXws4YD2=du?+el&^`pgkBk{SL&F2z)usNCGRdC}CY`sn#wFID?I~m1
z*l58Ze-C)Q(()o{=BJheg!859_wP6vKMsUC2&TYWy~bb>)am$1`@)&T6y-r&o>c3;
zbA`tupq~w*9#AEdhe>#XD+yONd{3Omj@8dv%nRiGE09cl`U*OsBo5Vxof}$LCKJ}!
zn-re6A}wBfHs9%6#%*;yq2T32QXy0I!!YpoDVTqf6HR=4q(?<eV)P`Z->iVTP3K95
z{4S(Mb&xI$E37L?L8ApZ9H-$;<tk&YE^vb6J!dG&cY7lv3YpMl^s8JWL}UK-Mkbg5
zcy6Qnz29d>EiZq&>PRzsCd=?g1`y8_6ns~nfw;`kM+qmqLFK)NND=PY5BYy9TUE+p
z0~-%C)(MCUr3RX<1;q0Q>mD>ilH}9l6-$8#<a=!bw{8{859{D~>{;^xXNc(FeDw;6
zQdl`Y%fwL3YbpUg`|W3TvH?~Z(39_K3N?}HG(B-%VN@1(S}%TpolPpK^}8rX^O`nb
zp36ZOcYzVR>RZO*PHz~rGGbuT+3SR^mSWdMH=PiYzB^Afa)%*ow*Fc9snYXCI<{?5
z3j?#l63ZyA6DD(42KHSeYe4a04XQDNK)1tzG<575Ox%Sn_~FUMxL^Y#dx-?=sYYA{
zXU0wW@7POK`4W647*$#IsaMp1hvf*iLF}lr^XczMRd;ejQ$bduHlw5GZ7gWkW`*X-
znh&0NG)7Vi!4b3*F@NlhTD8qpO}{ww!7egBnX{zYcKI4z?zl!p&K*xKh+R?#i<l4U
z#HTQuNDhkVO2wb`jm1VyM_6KDVOKNYEnR=tMy+6ICmqfCZ>G38g{rk05Ft9e4nvP2
z&Pa9RN7Xo^8FiI9-ASUoVAe+Et+^@qN@|Q6xsrE4WWZWQuwpV7D`E+gxktg#r?<-j
zZoe$&ATDy=6fJzLcevQvb<>vgZHLXzV+iD8hA>I*)`Gkrrl@|JuD|vA08}Yx^DxQI
zy+V)QI0^%P9%ub<i=|bvax>Py$r4pA*iu<gsm?7CyB6z<TF002utm6BrEU(20hXg}
zP9>mYy{rE|cc?l5DX(0XPmbk-ELf8PLsi#sio#ZdLs)KMGXrac4)2bkd&|PsHIDxZ
z1>a5=)4|GU1sBUr`sx#}2Rj{oA$xARE#O^hcA<`1k94Y#m{}dq5Md78)cEsPs4#yi
z`Vli~3)Hr<y`rRum7BBqQ@!XwGnm9{{Mgi>6$Ms4nMrdh^ra&Fr9>zFSX%55RDJwX
zw2^Z>jG;Ox#ESk*citE0FvG_B#UIeVvF-ta!Ey_Mb$@AC5@D#^TrLz*1%nbhi)!pg
zp{mUZU7vATys3P3thXixZNPsMZJwk6Yc7G+{w87Zx4_5!BEf(<!ZO3m$%#h3_b2){
zmr|$}CdPliY;eg%&c|C!<ajLo^DJOj@fHwMEgO~A>$Rx2-)cOY=?OCoZ-MY!gFxj@
z(!g@V$LUV)zkCdw`{lp&jMkd->i^$vGN%Rp)<#-LETu5Z>UGVC-wVAg#0tHChS*Hd
z%#UpW`#hUe+_az8Wx~wn_u~5I?Sj`FP_eyZw)}kb{J7FG(YIJpI~BeaQWdXta_L<^
zo>}$fXX=VH=FK)AmpkoW<E@bK5DTgh$ZEDV8u=ezD3l6x7@h{;k6t+&)0hm_zg=(C
zKY@F!!fJ2S9fV%D<1A-47$&@cgda^%kxAlh(a5&!k^HGp-Ey9&>~bVH;8KPExw%Md
z;)l!F?Z`uR=k`3hb(|()qv3*GGq6fnTVZ3tXBaipBKVf%)<;B;eqVJ|KeXS{pxU5%
za-YW+nIn;7<8*$@Mya+mX|RsFRfh|aK$=sPG6@U2!8ELG0C@m%kM7b%|Gis(DgQwI
zmDJ7Gonp*+Oq;=OA+zS&@`B8RtCh3*^c$~rN>BFr`0`OD>qD2z@PI_j)5Kpt^R0|p
zsTRhK7s7^+#0aKCr4iUI0|rzaXw(U*ZpHKD=Oc5jSEg4rlMrZ}DwA}s#FB~H)v#}&
z-s5U7VDaf%G5BU&5knlQs_mPF*|NH$Ep@KZS*=N@g3l(;w|e3cGqPb_7dbMLGvQw@
z9zD08sFJdWCzK3Yq>ecwF4wI6I=!TIx{!PRxi{&y(do=;GcUf`c8u#ZRMy1)m8xm$
z32u^G*xILDE#wn+DfQDITyz_gVmxfx5<OA7r}=4q9D$zE>l;)m3(r$yNSrwP-wsVL
z!jJ!ERGQ~&DoSlg;^7n$!VE_O{qt#*P$(WR2Cy~J!q(ta{vUZFuMlASV-6@i(V?>;
zKy~HN86g(DHzn5eA-QefrOz~R<hI51oLdBrj>7VL%s_Vkm|W}z+9287qW$$969_<L
zS<i=?+jPMm2?wK+z1NL~@|-|kR(6)4csw=#{!a6?o+3ue@c-K3FudNgPg;UdA`y%y
zPsbEe1U2HI7|yY8AVx7CeE?1`N|AMcpyn&FR@KMth>E!XI{>x6x03(+H(VPCE_wtY
zg=iN&g=U3i%uNcRm`TxQeS~wZ&1<WEmJsOL?=6q$H}~wF`>ZG!OtvDHz-_5AGh2w)
zt>>r?^oej1kP77neL3hj6TMpPdcMaMU|%P0OefDZX`^bzWCeMfX#ETzCtc9dC_tM)
z()Y^Y?{=93lx{cG3(g^`Y4fnd{IPb%L-7`*iqPVf??`y0m!<+MsAI!(gDYgAl!Z-Q
zD8rTP$ha^sC|rz@vz6QMUb<S|EQV>&JLE`IIkb(*v>-8aJZRXa4yI<>$B}8F#o_HM
zsbXDZjwIygtS!UD$9_hTN3^kc5ex=SNd~rm!OYE?XXs+)aA|gPFB^!8*rpz0ZZu+#
zwx*!K&P6kWo{<bUM(DJ&F5W_V8utS0un^#>%fxPBj5HJQs#})`pvJa5HSqQfm(6AS
z-jhh7otn4VPJL>|O4++Pi<p9fY6juQCCJo}4BV!fs!0>7`A9;F)uFz6jv@hv)}VfT
zk~O71)w<A4-4Y#+1k$&Pbm#V^X0Y4JpGPh=L2pY$RQD#<reM^hg3fr<g*MXjunBCL
z%U6e@$ol|NUGb9tZoJ8jq=yr!$8n;FG1;k6&3ROZBHXFhfQm^;SESaO0W4zN52UZ1
zw6_9Y8`=}Yh1&319l}io=Y~1Hg#XGv*F<|6?oJyymuw^x$X#Zuf>?a)a%(tO^yK^C
zY@;Jdm%A&!WD||y`KjO7@$XL0fB)(=**oKV11#46QWPlWJ4E5|t^AJbbEra;X`VEP
z_&F5>uapXfg5UmK>VCklW0B3(QXDfT9-M7?rDiEEL2d^k3^L}3XcFod9sWe*k3JBr
zf302e&V@qdF$6`wekJzJFNIK8F{Ji6Xz-tqQHnwzujjM)T0W|-soK;zC{2VX3bnEj
zf-E>BBky<s52G$MfV*}Zginw)$y;o}H;S~(7^&l+AybnUc=~TbY(pC|E^yNK2XCjL
zWB><BZL0dhrF4KSf1M_TDP6}hjoeR_H*mqsXbR3Sa_^wyx4CvL%5CxRVvSg`ZEW+5
z!7y8ZQ^>cE37Ov~ZiS1(;|$GopnmHWs}!Uu>i6EpB4lx(om&DurQmRom3j0H@kP6o
zaN^m1CWKrw`u8vF2p5c4Le3le>&TrL7hz<%XgaHJDaw2SZ&7r0sTtELvI$yHBTBGn
zrrbVMH(a2o7m{@O0UBHnoU}%~fCSA;f0NKAL9E#c27A0MIfX1XcE1q(4C4?I8Kp2j
z37Fta{2X(%{0!>r16u8Pi%&mi1!Tzgu75W8bx~KTmz$KT4vyjf*p5qXZJI|%-*6UW
zVkchsQhDwXYUM3ng>ihW_$X6)TRdO=vuRXLB=ld08VeWl+!ooC!~^`)AMr3J?%`<d
zUj~?Ol*S7-GvHRJwwvCZx4m1JKv`Q)Tr!%Cs#^J)Q{=W<6r)PWgXSd^(kqy4Oc%tz
zH--nOh&nhFw}pbjy=5`|R6pijF;f=J&|3LU5Uzp189nwhy$%yy7Ae$>u+}*cYe(fR
zLVjLMN3MSaH1)(xQ;2{*ED~HQs)<E-@?60jC*b8l($S>2O&r;(Q&5`V*gD@wc8vC`
zta=8}M)jNw5QD;3s($7I0?_YfaCf@YDSB{UIe1lM<_Pc5iVXa-i)FVn%T`Z>Cly}Y
zy5`g5$R&5Mwrl)|m@tinT}O#8P<>N(#ym)^e+e2uOd8>-aRrUR4H7e<7zU4Z0?o1G
z=A;Uqz#CzYcN$yEY8RID7}ZYKH7Y^gaKN~6s_R3vY4nOIOknUOOb$&@Cqh%oxxlyU
zyEU{iu4~<?FKjBw_jd3P;-9po`n|~qc8S8H0l#7d2+){CN`Q1?{&hExl!thQ{Q`91
zk%V?fmpf%55o=uA^M&3Gb-@N~UI+ePD93Q=;L8G#i#e%G@Dr8soebywkqWaEQh2NJ
zHXRHwA5y_qklzRyoE-FX|8`~xS*PI)UGHz&0F<CtkS@Z63+*(&o=)4DEOZt8-dSIu
zKw(Pg+Cdt;Z~khh13sK9qR6_?oUaYj9yOt><9TBQ+gDhbkA-@aSlc@T27}MBa6X8)
z&pN2YXm{VtpH_TF;XHeMb!%K0Cl2<4ZJ0UtaWHvVR*672Lu!`sit#9py_jb)3J95g
zs|d5ddSMCn`UJ_WmQBfpy~5yq6}+OX?yXC*<Q3`b0m<^dS~q>G0_upVk%wvR!CL0g
zi;>vhl8i;n6?=of{WHy30BXbkC+zk7EAHr{5y4hUEO;jeFPW)*NUQ;H_s_xzIC}(X
z9b9{K7<&XwZ=$CO&QM5j%*T@ySTNFDNLyJv%=zmZ5i7$|NX%26Dk+$IAjc~cBD^oM
zy}0xYS%`I}+5<32%OS3sOM)gef-hVrIxX@PlY)hj4mT&(#<evOzAvRAZLH)w2g`XV
zf13OXrXN?~u<k5oxS3Q~rfl8ma@U<v9DDZqRHhB1?{V3rZz{MAp}GR>T#{`Q<GKS3
zAWp2znYQ_0*yHwMT##em=zmW(u8{Y=`SwmfhNENM;PJQ9M0d)!`T+e@b7okAdyyhI
z4l%e6xM2MUTDKn<rvJq`paXq;J!x`v+Zz1U@(EsbLj1}|et$I=eVzG$WpCl3-zl>I
z+R{%;1Il}KJ89YG`iAEEMUZj71^>n@B}l+KLiu{IcNFer8l+Q#o11F;HO#vcnuWH=
zmL{jwg5e)ws0^sPp4W~{Emy7r(eof5H(i&DjX>4WGoAdr_G<YzZxhI!pIbB<Dh~&2
zWfzXN^;2(n9{Z7N^`QT^NZ!b@a#$5X8Y$Tt1qlmD8BYFhk+~#w&OC(^1!tlGEhfYn
zxgoQa02C0|sv+Ltk|J%)%?<X-NAsqkJX;OLtG(5^{yV}lc4KoZ%Lo4L^^Eh_<iBaY
zS#wCC8-^p}{%f=9O^fcE7?NG`=5HKcJ5ZM|H!~gK%btf39X(*VEqCTyjH;Eb=T<$2
z0sQxiOS=aFy&N50K83C$a@(|mujlM7yH{injk*k5ygS$XToI5MW87gLulMj<&mE)P
zIXcp>kL|Bs*C)KTCF0}jU+sJ6=yz9a(<hHC$Fnw-(y6P5PzhvaquM=iL{9d3Q`xsb
zw($7E-()Sf9=gbW;`Nbd2K~5}UDOGjcnz^_b1O>eVO;CFJKQ}y7=Ym2*A()ceZ!8N
z9-2DV8%kR~r=L=-)#aY_XWGJev%@IObMnLfTa!7|&<+K^+^4X2mP%Gc|BTpNaW>*z
z@w(hnBM&*kgAfgbq0#)idiVCu>}iyga#OfoHPG89je2@8fYWi1^&+X;FeO*U6O;YY
z3cD-x=~4Z;R*HCUK&alUkQnN@R`i#%UyL)=M$}M9MnUwoELB|{R+BeP6qUso>HaU&
z2sLaerjkErhl^IJ!LT=CPpp5JPNw1)1~S13aqH5Ux~VT8AG2_u*i8_>^`E#XdZNi>
z42a&h)lK#O@qUs@17S0|&1w}szh?V$X*Kp+rDDo5Npd#Xnj2a{<gQ7d2VVs4i4gWq
z7=irP{i|fuNHkO=wQ;g)bTmAbeZem5*6wd)5dFd0Wjp(y)~cl0Z}`rMmXQSzVu`Bq
zm*3T*L%#Iv9MMPhr)uDQ=j2bstY0cpr5q}G=E$t6qy}T*&mXEkvUC9x+H{jP&c9Q~
zz1UbrQ?}|fMRxYO9$9ro`IRRWb3>nc;A(n}vuScpYc#nEH4B_SC_8dJl>>%Km%Ygv
zqVZx?5Qaun{xsnJ6Ym$%-Y<WxdQqH$@(47x@<B2fZ$icO)-NGHU}wea!zVhdUT#+=
z^IK602uJR(Op@!@5~uRZ{!Tk{C4c=w(tK;xjD0bi9Ar#lQYmx;Eyh7f&XU9Y>Lx}d
z_X1(K@n-}Rwqm0+skNJ5CW{lYL>m69#`$2GT}~tFk<7zmMtO~G>ir_E#ok$^mrVca
z-&LkTYjKZ>)p8bdcdpt+tBMQXd*_E}53UV+qDTz{uUCkb+u|LMxoN4&yZ9Vm0%dIL
z_T>cTQBdBPT{88)?1qzPbi7T%@QCI|r@<UE;U@--IZD@w{3k5If?07PD}mUr*{JCD
zLe7a5`74670S9sNXE7c#3_)k`NpSIG(i5_-JB8TMkkZ{eCnhrS*gz7A2)U9_jNb+D
zkP7|mVR72<@a;p3V<+S|1k1xs5X<0_MNijm#k^*PP{yd}#bJ7U6UQX9V>zP@zRR0d
zSACVpyQdO^n<#@}K#3V=Ia#Mzx|mjzr1LlMZWFWX^w$)g+r<`ElTDQkn040treqdm
zQ;A+2CBZX(7Y2_XlD1lCZ#X7ZERnHkIG!#Ukc?r@)nkUc%8xQpgfEU#B9Iuz4H{>E
zTWdZma9>&(mAzR#wZM?ICX_Wf2#=5Svd)jbVEse^>h4h1NMGfsKC$sAJl7nDbzexV
zC5N9RTrPQl?Mii77@U0{)J7(MVw0;ihR;x0REad8GXe8Geu#QWsJ>IcFpYXlxHg)2
zRH;+6&i$myH<@Ig@!u@iAuw#vEcYaPzPy=i6z?POKK)#dVl*}0nBvJPY!ahBZQ@vN
z)y2O<o|f6pqfB828IX<qQrLnx^2HmV@Ld&Xe!chw=s6L}VLyHL2^7*`C1Ie2n=48$
zb1~5>UGwz0b^LIq<WpEu;}bBYL8?68@X#VONjuF{2!(p*_>AUAi}HwnLEy7RPp7`4
z2BeOm->gaf$q7jz$M(6)B5=+K+gkl-gCcfr*lB~$^x9Ne=?cc=Wc3_>lm(gb6wQyY
zCdng}ZCd4;_KpyrVCIG^*NmAAtPiZvm$Sg4i|90%>)rAECf#j>7A%WtAlno|;t-?&
z|HYIj|10CCTB#Ze4+SNOc)b3Guog2qx~<tW8h9+}PgHY|yP%3>V%sKlw7I2wmBqa0
z?jS1tHq3l6eQjU*coSd=Q)O^dTrTD(c*h+eo7*ROA9NdzN{-@YkKzY7BpsR~N$wSq
zn?3Qdn5OtmV;)nKHEM9Uy3@X_`fU$&!8P{OZ^I8+%XWEdy(0caG|%;I%|Vhjjgmnn
z!rwR_1r3T|5#XY0K<(q&RBQ@tpI@xmr$MepD0eI~YvP~Zj0!sTt6S@QOrJ6gO&ycm
zT+Wbw7_<hA+eD~_8Y^v&gO)E6EXokChNxlr*Q3@l>+0j_Uqt$4rPi}LafSVXZ+*DN
zy(d@+QT35`m34SzXvmFkU|s}Q@`f^%?TSuisb%qaco=H-zCvIqO#`iLia8EGh<8!N
z=qQ*Nx-W@1P*n{S-C2M8Wx%&-@jDtn>2#4;s!aXsH}rZ^3dx`X&Fu8TvKpZ%6s2(K
zJ?f%=v*c1%6lR%X$}HF+YZ##-a+E}<!)g*vWpe5NP#je?{LPKZFPNCHD8-R2As6jL
zgK;&Toc{i9HJqPTQn1H~QuT7$U{Lhx0>9t$_eeR{yHDKe&o@<(+ACnDEn*?SgchnG
z#KtR90GINetM()XF;n0|&2^;646{WlHzuqfCSd{=?Ql<nDwL{|^qsAeF9tc4C*5Om
zs)?gWQ^y!hl&z{TkS~2GVgObSY5xm06?zBz?e`k-fEi;>1BHwGqfKDf+gI^lrHahY
zgay@=AQs2oisyAGPej8mzATfZ23`n_qx3!r8`Fr{lgqe1H5M@}W+6_p=yA_raxT3@
z9w-jl0t&t!zdd9iJITuwAMIR<6fp)^W%G+k%~yk2upsJe0#r1rnYJJxar8y+o6@X$
zT|6c(TI==UGwYUY#{;PUrEm!H^}L9$uiIgudYKNg|6CG}JadWK2cxwSc;kA^%Q{P#
zc`;0Li&OQg*>rmSlhM=GQUco7WVz4Re_iaK;)XG_wfoTBQ;rH%XrhA}mCv(998_it
zlzz$bi}|=_Nf^wmXlX3}GJQ!H)FyUGe7+S!n=CW`LJLEpsFmSo{$=x$@LXY?HkHD~
z33fuB`RZy7?pbSUV*o6>R&EX~r&w+T95>SpTInzDfo)q(mpg5xt4ks{^~m2d4^GWN
zo*n5ek&E7p$;lJxv0W-hUv6+0&R7{Qsa!QqoLRb}JQpapl!sBBda7E7vVEg$L+)Fn
zJjtr97zNV2hKeeC#KM$zDr<JDAgbCZ!;1=&Bzh)S^$wGK8#SNSFc%8CfS+xp{Y*eQ
zzfyz#<kZddw}vhL=0h(+mK9nXF`jHoaYP#V%TJVI68ZE5(|o!ZyOmxPGOLgN$FeQ;
z0ClCK{J_`rZ11KA%W^ja2S<00V@`U365dEXRvfT8AO#IPeNpL3QfqtZWw0;~`E6Nf
zh;39PTSXx3vy&Hy!LLVFZxFY}aPUXg+~1o*XGR&1gY*$g)g{qqY#YCQ!|%(>20j@U
zGQzLE53pDfeg?T{bVT?kbbs0FBrvbQ=OQqlVcU_5U0Q2v+k~!eu{Tj>^i35<$B?ww
zDpgcXqX|FC8f=l#stvj35W^;cAWY@<hcZre+xK*pj^q+=$4225u$L%jivEA7cBblD
z-XW32b3rzxrR_QkLD`iTMOuc2Z?kQlE{>v|+q62~2~WLv7&m=_H{pT!EzMuRemCNA
zNPwcA4asq;gx%t$e81Ow<thH}TN_hp77qFJXu&3La>xOHkvlCnuH|j2*67lpzAJ#%
z5xYMAfvwE1O4+#J9EoHa72=*2Bn8v<hul#ArzX{2USU2PFS8eSE1~_5#&X=s(BX^h
zkbt^cylTDaqEdC##X~jAQ^F7Waqq%oimk&ZL`1V&HtxS8vx_CO4{ft%7RqicaU`C3
zcab8@#@XvB)-Sx)JM$YkHD`D`wviLrp=Bh=;bEhv2RanB{!#T*@uOQ7qaw8OJVf;g
z^mfYa>+7q9?U+ifgU39`;mS$964a)|Z_(Xc=8KuBHia#<GejbR4m){e%d%UJLx;~R
z$tT8GDL5y^apUb!YeWp=eURWw$9p(W#v!#VPn*RTBgzAP!F7>AA%eR@`GM-ZQS-uC
za|x|&>uuSTWmPAVD@oev2IR<3X@ik}Cp&tg#?tCnCE=AkebPLcaY_XjH2)S5XNUWa
zwUKI<N);z==|CKiNK}d8BxzShgsW|t&(Ro@$*s1+ndV0PSP@U05g8`=C5e;PE=yu%
z$f+;f6o)k%dqNnH>9{mETuj;@YifupZdJ@vLE0MH*j8AXM;LC#WM64VES@{XqFpxU
zORO2trywLY;F>m<y2vh0yfAjgT(YTQg?AhQhj_w_`Md=82yu3Mq*jJhzT04Qqk_aH
zeL7;pwmwb+expJ~#)0aa5-q&2@86rbLkq{UNnqB68EeehjTq)I1c9PrD2l0xjHqWT
z3=-G}pFn|sNv_cUd$!P6;08etF4$#M1HW@m3>-`o6~gT$@3|NemO9%#*H`!s6xiD}
z+MnPXBs=D=od_s_ccdP^SVxX*S`!Fkh2VIANk3|8cUNKzt$|H<^CQKCw$AeY-`(8>
zjOC7?ma|bX9W~EKkVe&-Hs2R;U^T+}L#$h{|6X|{YuK#eqxm-Zpy{CUk(xCco#tCx
zHC54tE{`C<K)|q@y}baDMPL`P7_J5&FCTHS;UVPWRXm!v%sM1hbc}?YpuRqOg`wP!
z*Nfap3&r)y1KUUZq87}VK|=mBsJ@G$h@>x~n=R&EUk`o(ZN#GpOhWTZ7PoAJjYS}(
z)pKKkWi*M^|FJV6e8RNw@eAfG3Vv#o*gz}TAUkZx-exUhvK@{DS?`%Fsg_F>RPcPV
zCNT7*KpvcWp3VS8u@U<L40$SHQr#EHu;`>dMeX$ZnLZ_!Vq+pPNx?Q~5*E{01k8Dy
zJ*6f`Lo}Y&g-Dmm`dLF6-mU(NlmmTpUYM~T^Skml>|JaJwPM&a4GjNcATZBmARq{3
zs@yw(O)jI1YCse~hgITM{@aPG7J%)?6mz^=Y1l#>>pr>5?)QqpL*YHU6x==XdeM3m
z^v{p$r@>dU2M(x5B{FQUrobFL^Beq{mS4Ee?g-r;NCI+J7v)z=ik%i@b+eHN>55+`
zJSigbo3N115JSx04nq~XTXEG{5!Fy_7UneKKoqe}2&DnSpML`y#*c$S({&MTRac$p
z34>?F)f2{E<_<z`PI1zs5%k1@&n`N{#6ZwlYef1Vra%LIbNk}+kb>tdmo$~kV?HTA
z)mbIoZ#KSe-}};iNpRqjxj9s*u`*CJ5+kH-%4<;k8vc0POjd^=77<*cOmNw_0*JF0
zII6GUm1lGzJ-oaGyDemaO}c&;cg7D-W^YYhK0;<@m*vnHlvTtSCsDZPl`1v*TOIve
z=}dFPScVR4?T_E>{>6kR)T0mKCa3GRyGHLkB0{BP;Z|n>Km6ZUhcwrmcUw{Z`)0Sk
zrGs0brtxut@oeBv$3GFtz(K8h8kTW^um9qV@SE+#m4@BMBtn~7T2AvR)q<x?QW}=<
znC#N-8#=BcuIa9}Y!r-5Iz|t#2;bIyZr|DuT6|<`MkedynYHU?G>Yt|v#Q;Q>C)IO
zOTD|iF$xBMF#YT_bzwMZc&mFnzqdebZFmSI3wcm|8$RmeYyka+OzYy=r_g^d$Y;PU
zIT+0>Vqa@ZwaxHS)N{S?byN=3hbbzMMbd3}PUYvI#^mD78zB+!GO`a5JZ4y`5#fEo
zl%8rqr(~dhY=)?IY2=}_zw5o_JxoH^<L=m227Uu3Q2ewUv|+C%i^?n=n%I7j=f;--
zTKZ-=tRayCRSZP$L%Nq<jE;eqN_m;z4Y3fjcJ=Jsh=zFRW6o_Mz_RY~SD*#cnM1TY
z%5-c}o#@oi%^oV_+-L&c7!I_}X7d!W75nGFi>g3uc<o|5I?oNyQ!2aLt`n{}RSmbl
zum_t&D#$$t^OrfsnI%Dj=3PZ;>L~y05iy8x3}&U=lrlae?)Nip1mOXp=np1psDM<E
z?e)cEyHeKB>Z9@h;J$X`Z^%^oYUJ;BVvI8$1j1vTJ3NLJDzqYlB)F0COt-Oc;AyIb
z)}87TjF<2>WQcGNa-N!pO_(Bc?i+{QyOp3{rvTgJ(17D!a5RKJn)*~91wO3;gv@tK
zo)J);XCJ1{8XV!8NBfG&+NOWB8$&ufXPs}?{z#2-5ILlNU4|9_Nq67%g8hU=+$NRf
z@d!F(%egefp4NC1fkAQPbBn)Y*7v~Oo&NlM|3K3D_S0~=Xk9yKOsp7q$D{B5M@-Lg
zt_zI%<2YLHguzWxNq?L8o~%|i$`rd)*GAJVIUhGtYC__`gLPSQ2ccA(%juEmxPM%5
zSf%?Qu*Al&*LIC71HVanu=tYQ3Qn4k%J;9h)=Kefdqs$na&~1NW!~jmQQH>X>(;W{
z4+iAx70)-%Y`C^v<aWy;7A>i^;3`=+jM^or)%u0wN{JOF^hOwP(PSxVpe*Owh3l|u
zLTI5q3V#c8?O|<RsiIoMIZA;LjMCe%TWqwA^+|zf7r5?km6QzQ*`O33iE+YQDc^R&
z*m1|qVpi&g{8jnfk^js@NPbu5l4ewKk8s8I+JM-jzGeG0*W`q34SHDCBcXYGbBK9a
zuj<#S7NY802aHo1E?#)ViB&IH3#;Hohn?L_DcxU>+~&a1<ZR#jK&Acz`Q9}}YsX4k
zEz9BR%b@a)qs{K0R_QE`*3*^Hf(I^R$q_UYf(L&m+XW^VP<kmZnTZ(}lE}_wBjVx<
z?|sS04;Wzv5V-@4E-0A4K)QJ&yUKQhGdi`^&Z|$1pX&EjOtegEXi-ZHt2h-?OsOtM
z>PQY}^4YJD<|whB{^>9;t3qSH7<D(Wq#Y%ztFPQ~@XIdD{B`pxW0hx_;HzM-ZX+=B
z%aqzb^9P7ZR~r6|rX2BtOZKSclA;_ZP9L*^KNXykO6`LRvCLn8ZQcqgPQTqZ;_#h-
z9IZo~QQ~L~lo2ueb*mI$yXx+EF=~zaNw?QXU6Spgk~lLFTe^e|y{q(JcZsaT;`*-y
z3jq)q0SoJKrjphWx1L1Tm|F0p>8NL>ksW=Of0$Vtn0ghn*v{v~Xr+_l%SRj$abnQX
z^Sr52D#;X6Im<N>kIPHHwTHKlB1gb)H<YI<%Pg&qo03nSGR(>ci>gvjATElHSqhu8
z#cXh3`$$n3OcHM6dlEM_aT3svF!d24te^omN%OKYn1;vh%ir4y#S1Con)}2HA)|JV
zn;l3q7!{Xy(Tj@<&~!S9gd7knW|WeI7VZb3orrAtH+9N3c}^i>$2ArzRvc?$D#yzw
zP5!0&MTynM#QMlUEh=jwb!13Cl`K)v;PWG$bgxtpg?O)1KI!-zk;<*eaU%%jS_tJv
zM3?@Yhy}GXVXn?Bpd`&iv?=uGajmek;@0d10SncmpjjKdNJ!9g-ZFUGkA>2a%g!-*
zwY=HK<t#R}g_nP*jL%rr;cRECXgF(D3%BAOq(j3iK7-~a9;U&f4_Zw;vB}}yd)XtY
zIo-f9dYN?OAPTU+d0YCwrf9%~7zX5Z)uBT7qYDMs1o+V$8WA-85U;7l<QtRNgs%DX
zXTA&~4I!cgHOmK)b538M(o&i&^&R|mU<?i5h0}^c&{B61GwZsuE!Kc;+67Ko>^tqt
z%M><ShPN)G=_{eTEyms-2k8knWm^F9Tp|@NXlC&v*Q5@rGx5cQP=!#K211TB#oAnE
z;^#(v#zMGl;0)alx0eOGuSC#qC!i<D&i~GwRpN1QnB;hcJ?r)O0BtCWlO3BUllv7z
zOl#Gp&aCH){{>?~2Qdk{l?=>^XH>M9WeXGoPyC?ibS6Jq%`u!A=L8T#=N{27$7JCA
zzX2um*+xL@|FlH@{aT=^TY5|6=Y!$h5g2)_%Ul|A!+VKr<e*#~^1xf`#F(-^+2^iy
z!gDlx5QLVk8{Af?)YjmU!Ti<CM~a?x0okY!+(g@$br7<F2hOu7opgeY0_Rwb->4RS
zQS*~pP<}*d)#q5bSA4`MTDW!#+ezED3?*0pH}Wh}lE1J?2=W+0kw{4vE<G-&JsYYj
z9L8~_1uyPaq7&Xsw&5To&xuYv!~pO!DKeiJSn2H_DP}%#hoU85=|!3JFY8!uq%1vR
z=JW{==Cg(<A<5#I<GiXQDW*#ZM-H2W^qu*KvD$JtHA{FkrEX_V_vkE|`ezOQM7%l%
zgGVg{=eP>^MFg{3&Kgit5)yTHN30Q8d!4yO?_1{o6}5=1k(c%qEt(Y3^g6p-I;qbr
zWJF3Rx)*}C-7yzr)f*iNN0g6K#V6BrcMmGIP>atgx)aV>rz;<tabk2Yxa6i5n+5UV
zYHmf^lo&=e|ETJ<5FJ_je>8n#v?x8S_Sv>=+qQYOZQDHCwr$(CZQHhO-~HbEeLrTc
znM|f>=SkCarD?sCBh1&?-3@Eo9~NZ>iIT4j?@p6THN1$LiF}hRgv^m*c(SJ9We;oS
z7zn<H2~|E7LtZ0=xz*r?-_1Ww&>OF4UT)RDn+!Lhj$r;xGsqojM;-Cq1#m1Dg#uK=
zxvpPnYP#f)BkG*st!W|S4(SbdG1|CDnJ_-gR}3xx>!*=6jDNV0bqe?^CyYEoWO)_x
z2T)siM|DYgiU0P>tkWGmLcjoehsJ<!=jjtTgU+0|RAwizvtMWJ38w3f)!_p@FI5Z|
zHgtptCa>c(Em*OS0%Ev-j)Ac|(|!l|JeIw94;yI*FDj|ghOw>Z;)j&)2ScC74Njg+
zMo6|$c(#p$Ad>8!7i>#Ux)aOghC%y>H7L;<HXk3qnrh|~Ot<;1S%@7c*sI%$0+feT
zFb7_qS@$EOW%*e}-WCSq>Evoi51xSiJklI6rCU*8J={<Rm?4R2Ju>$tz)rM(Sro}D
zf*?H+%Nw4r$a*+0&k|E%nmZLWW)53I7<1OSW7tlALFJFsY_3brESHQXmZ}^BE`q<q
z9edHlmDxEgAs=KDDt=w^+NL;syFL`98h_1cev!=^a6$VT#2&F-KJz9yiMtQ4En0d`
zOyUAWiQ{pfm-SP04p?eabYq0QB<N9_&(Y`m*Sjix*GMp$J*6T_%V_3ct!(6B+R!jE
zYly%~ruG|Pwbdb%YIcXz>lVm^{tiyLHt)0mk`*cMLw!aRg4Ot#JWTmk2uwzifBV1%
zY<HKy?Mh#CbS)RqZM&PwZA%+b$^h6`*yq<KOOHO%v{-g`e)e~O`%|s&iW(PmN)uWh
z0ecFKke$jb<3<$fx>c0_s%_rZGY*+l<K(R{aDQrlv7Y1n5K6Hhi?&v+t*y!><e2pQ
z1L00dHvf98n4grlu&~xxLlXPiLHjcxtwHm2x^k%zuhW*bR!S%k?av_IkpP@{r4O09
z^}j~b%Ab^>_nS_&Yf<Y4Ibn%X7Js5L&A3{XyNbeYU-e;T(!7gkumfc`Vzd1&G^FfW
zyRb!oA*Ox`oxs#vW3c{#(}U;P^63DK^m8=3{L5E8skz#Bo#B9MCJrT^!7VJ(;(G%5
z;bE$P<iTTR0Kz-fvUseoGr=|v=19t8g`3RYOg7Kn&ozV><8Ky<69lnzDwiGe_*fDr
z0#w9HGrqkW+yYwq0}+8q&+w%!Mz-(%9Bw62n=Ft!Ji7*E9+22(rlwA22^v0LMJUE`
zhX|+mO-2j6u5<q-{2}3xqSTa#;?vpOa&hM6w>=Kk*6TtCW`8QvK|gh|mc1I)WT)YP
z&5dXy;b08_dLy9`*Ds3}E$9wP6%)KV1Jwj`nqEbweV!k@V<lVDaSfKg>KZ4K<MlsU
z<Crap2g7cX*vTy_DKiUsd&+U0CZ+?cK`i)5GZqoM?MhkI3=^NCQGHu(CTl1*NDWaZ
z%M1FB6Fo}KurNj87)M!HX-xf1CUFI6>>El`0gg>T3O&(m>*@2~_-KieV;d9;TUK<D
z5YChK_S~V8x27R?BJ<zDQ=H}ltkl-4kqT^XIk@N9y+TY!MG|lbV>D|<k7&$RHzI;H
zN(0OGk8eGm+0nA0bA$z8Mq(FAYjH|TupXw$u(HisIZ4XK4*unv_L2G%qsnOF0sWVF
z3aJF|{SzdoyG8CLjqG?h{4#JS19<UNT6dzxG{C$3BEsP`lZrVebm0WuNp_C;&F8HL
zle|Gai^#BJBcHBr30_Z)s(w=1PlZ^q>%qKUhD<pUAoq$9Qpxd(r2QK5yhQ#WT^J}e
ziNSAKAEV1qMl0BhM1UWO#DHQ1Lx7bPTy_&pPoNsasdXe~<*i-(`|jfcTMw2obBqbd
zxo%(b_Q(fGpXm0}o$Cb-+e}e^uk=Nw&X{CY8Hovx8lTyjN`R)X9#rl1*s#F=LS=T9
z!p7~3TTVd~wo`8`g_xr?l}9SO)IJYAg#azfv1*iY8@#U9tbP0t0jHA8GTdR5O=Ty4
zP$LAgCB?x+y(UM7%#XL+pfqu$SI{|P!)TtvhsUG^XLe?*nc?yid+yMz#yYhs)Sr8Z
zO4QR_WPGMQ;zZ}bJIjlq@KF@{BPJLRFV*Ujd|%zijmdDf5`Z@N5)8?@V+7;4TMVFI
znepUqf#(TB2+<NCFYA08qn>YuIG%PKYF86rJy=LC=62d%>=|s6qk8&Ul}C#jPj!a;
z=`&+X`ufuHzhOHAW}PS%J}I8hR`AK|CZ&TfV;QJe8mh>`sv)@>KQ8^FY744b1EtEx
zrsbGEoQPJ7DJ{eiK&eboT3VnotgDY{8p5$FjI3?J8nydHKjk=}1Vx97YUi90eC?en
zGsP0x*5yeVz*Yhk|DNxXbn~#&R^N9wt{0ZH0>&(kgaDG0_9+W-Go_CBL2Qd*LC5Se
zx}!Y0MGCw6O+EX4T3yv4-Y0%(Fz^+tm9uzKd@@i!gI!w1Ilbh`Rfg$>0R9j@JzvB<
zuKekwfuaMyu}jbwded$8NU}2DxWouqmE0TaI}QnMvrX^3!r^G?oT>FXe2ISqsZ@yf
zm`2HLzL8+$T=_U7rq&_sF%r&N<CZwwF*qHA$`$uBUn@z?qhfU<%9~8|P1~pcMHWfl
zT|bOcg5ac2n8f!D)YMsDRx|dkQkx@lE}9ro0OE6Zp4?WF(5`QzaltaH|J~VD^?Zsq
zr(WgIbkZ>orP3_B66YtMd8G;9BGHCL@Zwx~IwjR*{Af;6Gxd!p)uK=uY@7h?x;~_#
zt-8;Nto?#FH$VT30E~03JR;wDkd;z7i(6}GZi%UMys|?q0${$L;2(jesz186c4C;5
z@Ne|$Y3*r(rRUgGq^7kk=h0^_hi|x0vr++U+u`_xTE;DNn#M&yRS~}?@)$TCkP|58
zQ{?u-!{R8B5g){KBGwkebyh7m)0SH6K_CX$>rR<l+krfV{e&t9R2GSjBJ`tkk{y_v
zh}*-z@s?~&n8&L79QqS(GGB-u3#}I5PHew|DV>-`z647ND#n5X@fq^f5ETb(vo8P)
z(W8D6i5+`+srTJc+;2$#F3iQW-)s_WjWG%q3=f^Xlj!eG*&{dh>m>3ksza{WA6!h)
zH-F=aPrKDPg3G8`|3^DDe`L6v*Zjm&W35If25ZnSsU^CyXN-c10eK-IxF65R82Rov
z0YXj07jDB8b?3lDK%p>R*z?KRDb>V~n2-U|Vt4x-)PK%_ue8u_u<_KMoY>9ufjA`y
zojAZB4n^y>AVxB6p}V~#Dlekk&ugA-zKLi$TCvQMd0Q5`mBAv@suxGvIELoE6BJYu
z{n@2N=BKd7^U=l=K7jY&e_^exD?*x&#1&Oa8vAm0X=tzw(QM2O<3tP~wMb^CrRc$A
z_QhL8t7>#CP2WBwCMfkw?9-1}Br!#GKF7QC(Yh9!_mw7vg`I2sJ&kJn-ld>NmM-wp
zB~F@2A-OOp1oacb1+k#V5MnnY9H>2Oh>+8($*&lVhe>u7eb`@bRxWlTIz09RF@WeM
z=h5^wIZW3CzX`pg=xF!uH(VFdlv5k1iJ>s-C!I$a_e7_qKJ9j~anz~pLMuW+Tw*7`
zi^dS)&8ovc)%MhF&hl@pz?s^mUZd4JbR#v!PU>#OW=e*7c7HE!nr=t1h}S|cyP0}o
zN!hNT#@BH6M?wO1I=SVqScmXRkG6y8PcOGiYAPMLg9uRAOOSj8WLrL7WkZo7sLm#;
zZN8q3kw>kPM24dwTnemKkAm;=6H(2Lg3V+G!<Q9+s;-^}>j}(qx)Jm4!>Z<<=5|TF
z87oP`^Y5~LV}_7=99N^Lo`6tkDuzhs;r>N$jWb^-MXQR<`CrpE$Wnor0(^h+VonWQ
zm^SI0)*59zpGDKk6?o=Ao6`(^U@~u0k~58jPLIh85OTWknvYEm%h0}AA+|2VTf@nG
zH9s>Cv$fS0J0|WfWSxn)r4;;9bhM%$luyBrRq0UVQT$t1mrkF^)-}KOi2WG3L7(!2
z5EFOf!A6|=Y&P@p5T~xG8NBwMvzL<WkEm8=1Tc4(^e%x#93$KG17ux}1ZCKQ`h3dv
z0+7RtmN^ui1Qxq}>r$bV_H4c<QKOFAYp7Iub|)(((TeZrozayhK3(S?`F5?#MyQHn
zZfjQ^$tDB;xF<?=aJ05c3)}^xM`|lp{F@h~K=Q>Vq>0=tB`E8TU;|Cj{0<iI{lcZ@
zDNIz0@G{YJ%rI9Rq$;Hq!^?)XE^mh2{nRF%#FfWNEhc7QDxPH1LxGo&P89|RZ9U;)
zRQ{R$2xIzK##TPojjQVXjK+~+OE?)FO^G>Zf`{UOD$$h=*YRz98KS2=o~CO&?xtkN
zs^HRty*SGuZBssaa7>v^C-Kw6ooF@fZ7xurmV)YB^e8yXmg&V_?bPc$$7Ne?nXX}r
zKU$fQH6`_1nEeoK5ojH<ePt1C5iuO)@Eb*bAs6!OH|8CQvgI|}MO?8bAZNi@Ooz>q
zD?ezLX5t+qgEhkMo`{vhkdY3ax`cLaIvzDAm(KS@J@6NCH5)>1j+$Q<mAEdBTc@eo
zY@CBBd^=pctU9cmQ7KXDm;)&FKC^p`D6gb^a6l_Z)S~GgOQy<oL{+?oM{Q!1>xNtm
z#jA|EWX0ouk!+=-7IE{4)&o;972ZnGkT?mFVf%G8Nb?91u2$?xjR-%N6c*qM(h>=U
zTv&#LFX~5UjWb-BNMV75I755QF#OCBFMEy#;?gnVE&gRC&u=bzflFxA0_SX|o{1#v
zQb2+bWn=no0_V!lGviMJ0~fGjV%zvHXys!jq7kvC*1thN@`=<j)}4cm{U-AlC1@)C
zCi4f4_z3&jxmj_kxRE!9uiqJy%{L7R^4HTV`gB1onqL@$UPzh%IZnI8Z}nPphiw!Y
zz$;229hJR#F}fqhM1W&ACD@RdAt^bLQY2iY4inIO2O(Zi|HgQW`Tus!XI%p#*dXz#
z_U@#|(-$I^ZsscqD3EH~zZym5>;XRi<IS`Qag?__1yz2IuAq}&?5S_;DTEhp(hbu%
zgO5xDBuK#IRvYw?_apAjG_R$nw~V%feN@t9W!AE6DCpf6q547Ic#b}FD?WvW8{xf=
z&F420+1}+ZN$As8QN<Dd>hwwRVr{`nD{aw{O_{D}U334$Y#n`IbkdN@0+ag9V~4BG
z_uu5|(mLk>GntAS>vw(h+F|k$eg7~FZ=`h!s0a@B<2kL4P-md*Uy{;I*z0)ra{f$X
zh>X<5+XsU2u(3W11Zex67I$g>Z!$5@N6ew*t~?Txy-fTR@$~d%=c9mi5(J<hE8fEe
znueT)S*eA+F7)5i_U-d?%_R|`>|!`uxJy6nqJhV|539$Ck2`CL$Va9|wMRiAuIKng
zxD}O7C^W0YoztEV-Rsk>tAC7y>8NCL{#IQgh-b%+mq9%&j2LiZx`jRy??cpBMMohO
zAuS)I6U8HH_r1fU_F`*Ed^-%~Fb?<<&53RSOd};g4$TmKf)eRg?3S4GgSv%jSp@do
z$UWxI%N}`$UP4F`sD3SyXL^^3&G_BR|E{g-^8}<4`c{Xbn{`i5JQArV^shdhAbbwR
zt@-BRn9xdLqUtXU%s4OqwJ6)Sqz(Jcj8aO3_Cy8r2gB6noi)s);zFOTRW@id#;AC=
zQ%ttPGp%R!<WKI*TedR_zUxGiT=|)9n|iYv##pak*9fMeEMrb|bB=kQSSu#oy%Rzz
zItK#~k&BlYbr@2jRziX(V+~NkC=)$_ROk)yyavD}Pj|8A>Z6_yN-pELoCCchEPxbD
zWa_e72rUFS`G!LqNa%v6Aim;f!BH{;GgaoR?dmuC78Eb0cYx>9FJv1Z6U5Iyv3{td
zf2J7&mQ9tMOqOfcjr%M$V)2b0ll@p)*b6v*Hs)LLs2ypfX!3+_&ur$pJ)F5-PfWrp
z7<63|ifW@GT-QC8t>uV_^UN|sC1}aDc5*hD4U6H7#MF$v@dH*w^kSo?;FqU}Ekqc9
zrb3M!?M-su*;U#%LZ$ow?Z#+r;Ucv^qT$-TuLsKVLGIwb8~@|^ep&fgxq5Ihpv@0l
zmu$ax256{>$QimR@-mN2+P9O6f16SdGQJbB<++#j-ZGyEL*g?ks<U`?c5Ce8ur>qR
z0pHQNMM&@KD<0h+yptg2M43cHnY5T6@|IF&mNPgnT*t&-hJEoR{*>Zl;xY<5X;>Vq
z;Xx&tZfvC&dhesmjn$h}+T5KxwLat1sXY*2b}mX-w`t`piAtVHQ#T7-KNL1u0%rj&
z_fpWw8Tji+JSrM&MRVraa=f!eq#$AojcC|pyzIow-9y=@#jKWs%6bsFZs#hmNaVz+
z38VHAw~X?0xI(fGlZXa48*uOc<|(k|;_%_(JuZjdBA4Uj5c_e4I#ghP2Dm0AZ`ICC
zYWj#01Y}qks`8Q}*GZV^5<;{DLu9(xp3w3vGOnZoX3Vw7mQMdb8rBMHJU;63b!_;|
zz@WO8qiHWQpJOlO^TM?(3A(6<bR2&`x|`+&+Nu^}x|Wb;F(HmgyO!3uPRqi~v(cV<
zv#Gwu%}KT5_S*Po%<29#y8xi$J`4K-jyDd-LC0|LtQc@vKZMy$L|@&N`omWlQJ4T0
zr98yOc|Of@#L~nJ`_^Gfu&&|mviCdD@!xGJeze124~jve?NN<u4&u>*7`IB5wXbgm
z1+W<#OB+?s!JXdYVJy!w$Qw~qeK%4#AdVbztDpo|2kxwXcHlBl)wj?xPSQ0DJ#?JM
zaxkI*OTvZZr$5%@{ToHPKX@`S+!1!(bwN?jy}7@?*1?J<8<$(<t1COZ5Xa>Ws#;ce
zc@qxm#_E)fUN@SQ4igoLnlI3W71yYp!oSAW5N$9@(Nw{44(lkQ-R(Js`7udc3_Qp;
z&_QWP^VLzkz{KfzbcXjSYcd`Xf&q+Nu_v&<*On`myA4{J&v7%D7BQ5dMjO|Q{3gxr
z^rb~CM4%%2E=cmIZV;Q^roTy_eY@zrpgGWIKz_hxL4Wlob=l2NmmM+Sh0&%V=#c*H
zA5-!@&m9QiBdv*-L%D4zu+&8n+dClRv<;d-@jnQmqEHc|cD@k^ZQ>*7Pl02sV<E!G
zjZEb7#>$0q>HwOXi;L?;kp^@Ofs*DP5DdJB7lB^5j_z_U)|KDh?uS{H%Q33M$1zh8
zuBpx$0c=8e%gpWz2cqUsH?iV0$C4;oqf}7b)&7+3?#zIDnryxq^q7S{WDE1Gcd`q+
z%Tvl(Y&RlobEAPFomW*+{4L#>g;f*DO~+KK{i=)7QWN_+g@nNBs1;r)S3LAJf<LT%
zKCmbY$SK7XTP5Zgec&Q%tFunVzKpI*c3CPO3%YKslc(Ks><}-O9?HX9K_Dm22#03r
z6m7jPg0v}O_fX^OwKTbi1siMmWF=7Wg}Vq5UiFQ^ak~_l>CZ~#9-x^OVJ3bmt^!OL
zo*lQAZLyynAz+8Q$3K-z1-b}LZfUDD_s-WTrQ!Y*yjBr7BYckaxPQ;LKoWwZK&Z#5
zST~v$;F+;d>u-S?!G|ZcjaL5A;Np)u-}hGvDlYDIcKf?1AqSO<4C5Ycs2XMVflsI7
zIXRP#5_DI3Wc>GgDA+TKSm>Ls%hN*+)KQ|m+Tk{+`x+{*E_dDc-1VOyP1)(!cB}Xw
zZ=$n5<8l!5Q12)bmxEwl1k5s?s~JvV0S0oSsBj?tSr6+WPog7*U24hf#$c4bL!gAB
z?lDuq0`5DsU=zlR6uLM6B!1)iJ1Dy|bKh`5)}Y7cRke7CsopxMZ8|0pr#|T~TtMIN
zXS7&NIg8D_C0U{!MgocvHipmU()TkZ_j=FshS^RB3wj)B*DC_sAX_7u!=r_+YyWV)
zu#paPCfo}(Law~-@OJXAuv#;Lb_jl_$l977`P?hr-9E(i@^F?_Uhi7V&Wp`Vj{PVM
zl(Gn!@auOUPqv8s0svvO``GL%N8Kx=>T5Nt2_<(cUS>fxwhbLSrw1bmRUuqE>x78=
z&#BSoJ=Ph_uY=tT;HBTa-=BOPuX)+7qp%czvzcypXc%%nLB6S8Hs_ye8I0&cMzVzl
za2FOrr0?iGChMD)6ZfyYg!_F{Q)Bsew?ZoRWWV?x@6FSGR!Q$Wd+X3sE@~>vUT^Yt
zx`K`T8~$W9{8^{+*@;P(lxkd^WgRj)cn{qVq8C`PS;%78u(rQ9y##pRUA2+}vI5Od
zG^=8OT{E3YB@}6d5{~2eSJxsZzUn46D8j2OJa*xG*Q<kk*M@A%X-kle0Ilf`9kP^F
z0<2(ZO|+ATV7jbP^YJpavW4=@V4o$2RFs;RE6o@B*_rdyF|-dLn48a8?V~T|Ga}O*
z`f|M*!4*TUB8oK+!%}<+5_<PwGyC)O@v$@YIK`Ujt4Fn}z;;`OcBfmWb<F)5f#%Nl
z>Y+f7SB(<Ix9i;zL&W`la<&)!WgrPSvW*`CY%QH(uiGFOF<1PT@WI^A%bi6C)4ORI
zcp>z)^V8oC)6VQ2Rle#g{1mvsw)W=Fz6Nx15;A))EKs0w7Lj-BHXv*r6(%7l6!_Te
zA4y|KjwdZ~TgOrL#wTC=7$O>I@)(tOoV7pwLw#_tH6wSpf8nkD_}vt3xa-jHxsNZJ
z`ZBw^5p9!EaZz1a4${PS0G>Bt5>mt)LHHGj3lhNS2FEpfXohnx+aj?wE~27b#78rZ
z11nBI`p7g48^s@eL=TaW)V80sOOvB1i#%Qn5^YYYiaeAwm2j8dug%MnWvXsOExgzi
zE;{Nou5>~rIC;O7CQd4jxEft7UO}%@G`fAuk2WZxXx{1NH1R~$s(5mMnx6JJ6e@Ns
znN`Qx`ml;T7n({^Wv#tZDW7*DFB9*(f+R9r4rufJ6#9AZRV5(QBNkPpOQ}c>53HI3
zy&L5vU&XG>7F^e@l7{6Ck%2Xf0%!VC)&(B~kw0#ON^v^S6+7*h5ETkl1}5KI5Cs$H
z#J=SxPN__ddR!72pCKG-4MZb(lNh&&@|{nOw!w6EsZ2JlVhu$3l&qBfOV{f;?Rt>K
z{?rK;CCXRAQ<xM^YtR@TQalrVU{*x^sY%1(wm>IyEm$r8t#)QysY&GVI7W+_`N>>n
z+qR%JaSp;^xpmdHr>Z^Pu3^*?ttFG_isHm8RRf+fM8S|KK)7l!^_-Uyr=l^>XHhCS
zP4)6&bnLDsP0=cIX<|IgWZ4CIF>zeM?`}D^-l547L;@i(T6{~<7n}yfWzA04(6@*p
z*$O-zR#sx#d<y5Y*YNU32zehw{RGOJaxNvSn&sJi7xwcmhZOeb`e?c#Kg&<5oB})J
zp+giAfocnb*P<E1xHhgx+w4_^oZpgMn)}`a;Z>^7Q?os&oX$npZAy4;$gooeX0p8a
zdLaPM0lfhN%-Y=oALj!=7=zU(v<yycty~h@T7Fmxoj5xs>klw3cd}O^?FY>)hC5%4
zwhahuWZ7-|ijpIMw5`4<_2>&U_a8f~k?3pAG*vm)_9|mKhA~lsn(~U=S+boUu%r1-
zI@*5_ysr=VqZAn~TY4^Sw1$7?4|_@OU8=g5>-qx2DinC^sW*`M8JH6az=%f(q=;?w
z@yuv4Mj8p%S%|N?k5AfO>~qC^VM71tZ%ikO%T%nrRh^bh!a_gv(pn%RA>2zJltJT0
zLd!bK$KWRuT%$3IMp-=@f9YuwhXD|ceO40l5Quv+HZm||HW(C2!bgSGveWsq*RSV-
zzgB{GVg*3l=LWSto_>%}uVi|~@YVPjnfiDt;E?d)lsq8$os&0!CFqIIWTIC)7ONx?
zm;IWRwu)qCoYGp0yzJB`xYJpvSOcMvGY(O+Xr89Q4<>E4JTHQl+%Cr7V0q^!_6v<G
z7}pPJ=L|v@#0@Z=ZT|$CqirwMv%^lHS|LF@2*b{xJCZ^7(gW(?ok`yYy${g~=@a|5
znhTLhcFqawq_-=QCE3L+TV8aEw5=dcjq$cWr}jk$$cs10CF)_w5Jl5vh?H9TD!1cJ
z9(iXPbg+1Tl8jhz_z=4`T3fQN$Z;8_)Jiq(QZBpHmbNSsTth(B-EoiA-tJ^KR47=I
z-vzMpiR+)g4Klvcu++`~-IG59ut5Q+4+MH<pp^n#gaddacA;DBrn@X|;n4&h*!Sa`
zQbDP*ydR+Gj*&gR^fkIOe10A70zL5d5(LV;Qe^=8_2k$&hQ5GOCCU1`GK{T)`<Su5
z+#nUp?k++u*NkFU{Prwy19aF0Fgm_~7Yw%<H$s9B5NcIJWFH9#0OZy19M|`P`xaW;
z`uwj125P$y_o}XgY*B%^z1Fn$?R)UJZlca!bauP~andR$%Y6o@ac;H$23Uw)H9aE1
zfEh+`)J3qMQD+GpsImcz%?AMx4wB&bg(IlG8i9j6hch@pn~XvvIr@=t7eIzCA*FWl
ziTD9Jl0yb_?zAYFDP8ptO7~rf*~{6>fubp+5BT%$aU?V%N|aE%+E}@5JQ)FzRSlzP
zoK?S_()6Hwow8kxY@y}M4B=?f(e<pJ(^n5MFf}80I0U%KwxL-&yQJmW2O+5JgK<zl
z@!31ss-(_9TOt6oO(*ka+9hK{aq`$J<w1@$!8IV~xk&ICI?NM&L5_UAfuT72V4e4h
zje*T-;uz`VM4~{%P{5)E<Vz}#i7*jn4VE@WsK}MFIkYXqNc{u`V3L5V(;|m+NA$5f
zw~)*UPccKTe-4Ha6v6)%wOoHDg(L_iOgUi0YP))iL_n;~@lFB5L2h<K`Q4FIZx7(9
zb>_iEyntWEi0OU!NfTT$<qzyf`ChRBHt(RTb)x}>lQsMI1HSkAs%n2L0*@|e^#Ot+
zquYULO1j?LsPVUQbO^m$>-B=G^{<%0LXEnd0Rq|R0k{ED>hbS7um?GhM_%dy>;-qP
zO-<*9ax<||6Uy?yM3)W_-XG5OhS~vrNxhq@3G+?>M1Z$a$8T-IhL0-J3lRan4DM$=
z)rKMiOn|p)Qe~W=qtAzg0BgxjWKsSJLT(GzCpbWstBu{41EN1vZh=4(>ZfTlLVE8P
z43F%pjg58eU4w4zjpZJqp)MRHhk~L|82){gSvwmGj2&<46cmK~SILh6!WBGND{1tY
zBPcj<11D}u2@*1`kT7USYTDJ$U|4diHr2jaPEX3-9{`n!qZKp~qSczjXB-BRNje4s
zDm^<a0Qd^<hD};-EjDw;vmaA02Mr0;$!8M|k;O3@4)ocMomOYZxJL-f)oSkg37~^3
zEg<O3z8zro&}6Jk#O(IqAawWjPJr-u)`Z#?{Gb!D(+;QAei)#~gPdiiuV1@e??d((
zd&?*dck{KY>nbl6V8H^{H{xMbCm{09RCDX<D995=M^|TbWjAO)$dhR3_vuPyaOJdX
zF(^=4CsI>*^>QdPC^AZ?UTt*sv?xR*^6s-(W8B2ng{si%`Md#foYa=^zuWpE!Cz`E
zMZVQLZoJ@hFdZSqq1EeiIH3&4*{h+(tnfL9_$n<P&@zh4<i8;t5^a02v(T8EaRrIe
z{I|I!Hoo@x3N|Q;j4tikP=&vmxfR`+Bqr9!+tI)uo|V*KOB%4x+#CAIHEEM&%t`hc
z>{nq#-Pb=8*+#9yJRbT!%_6k!tfRxQLlI!lHMZhm&fy3^gKf>4&eRJGurqaY#>2-*
zb=(-9GuK^&?yVi?yv)HJwC7&aoH}M1KKZ`;xG+}o%>CEY@FMu!o{Q%*GY#Q^2yW{I
zj|eM{SWPU~j8Ud@tldI281sTbJ6m@CZq@eJRTpg+3NBY#u(42KbAIT`%i>{`KUoFX
zH(lIfUbZqkD*(60p9(_`Dd0+GM_LlKJ-E4mp7so`>90M2*t(F}f6sKGf1DsIn)Wx;
zlB+|8WT%?}O}bHLH9|x$82?PD8=fpgKhHf8q8nnw&P-%Ow~Y3j{+$RDM~{ujzG}~l
zV$*C#l2vUK8irgjJW%@FbnwDMN(1x!v>pl4qb25g;fJH?j=j;#&}Gv%m6H3G>c9#4
zg9>3(`Y)?v7&aNh$;#yj?DHOc!<5DmohY-#yTmLLtw#qaZ=?or|D-LIog$`z8!hG3
z7<q8&ySE#&hf1TUomd2XUx3y`ov-Qu_#2IM5j|dy$lJP3_o0A$INnPkx|_|8%XXK6
zMt?rQ+KgJfmId@Ps7G=x;&!8t)sZAde<X}>WbBE`pBsyMhTm9okUIIFquS5_Om+eX
zEgqV<=VmCDbBKV~uYap`O3ZBr#rDrXG#BOO4?{mu2_&1Wx^XnO@D|<joXi0PjDhQ1
z3k^+Bu@VKd2*qKWA7fE%U@o;%3d+Dya5@lojLN4rXj?QM=L#$+BCoZQXsf}%DM*S;
zB9;+ezm%7CqbbH?VYehgWCeJ9pDNDX!A|<izH(>HkX<F<%^s=C;9v4P!UEx@r12-$
zIH#e}q=kKD(Fn(2%9R7<Wjq6q`b1Jbqc3@zat9vo(bK+u7Oyx+;`Ktno~R$AsDEag
z5qDWr$z%q(wD-8*wWb$x$nKrvC`ZZZqiW%7vfN$%iB-jn;Y#oMS`lSdZ76TVMT@Cp
zrS`*eN8yu3$aCvj3C!9}iLAEuMHS<EN9Ubm$+Wx-#6_bWk%UdqD%DdRRumJHBa2EW
zLd}WF=#^S=a2O)dAA&3_ZxovSzY+NAaar{oBNJ{*i+f4Ygob5G)uR-pEj9&h+S@5x
z^&KUQDy_Vo`X;`v<nCs|Si?9ktaPj>GgC35DvF^E4~7K=4oVYDq)sEwTh%*WA$eOh
zh0DhYP_nCJrNc_qO^FFX7EO6|cIbeMq@ZR}EKVv3%{E+X^<+q%arJknswABy0^_og
zcFs%zx)i*6onh^Mts<+HY6dqxT@}Sg@2l-@+MT%-u%@}0$h`^h;3qJu6VX*;<R9@f
zIfhpnqE}Ukka2l)jG<Ciktg3eXdf-CpH2FT$UWt8@g$*K#_)Hb9ru6)#_Y7jx^ht%
zW9S=&;quF|6#36eY5VRN?cqC3iKy{uTMQ5*df5nP+RTf3FY2^r@e~Ux*rn_G=Kk4p
z)!1~NSHu?db|sXubBz>+R0U{doMuMQ)9;Q@^R{~9#f!gBuq}yW|B52lgD%>qSRt|?
z%xgS-r!l6ubqU};s>Z?5?&j7W!L8q2g7dSF9J;chu9~Zr<7b?TB_--WaPZw6lOIAr
zc4OxMm@i?$WY!SeLze(;`pXO$)86ohpw0n}x)l*E)nmVtr%)^gDV@&ljG8Ydl_!4K
zd>TVO<?;~sTgv2QE4fbp3#D5)t+LTnwA3#x?RqQKRK1{2Twb9ZL05=oxcrJ`JV`xw
zHCfczzk%MgyU5cX7Iw~xB2Dgsd-NP|8LN(hth72C^VQaHut-*%;Kj_-9S-L2KoHwn
z&CH2Y0_pVpun=Smu?Z9L@2V7hz{Cl|^csuL9@HAwN>h)Xm^|Xoh=2odICik0O3YGh
zlgb!!v#t)RIm__e?25EeM<ML-jymufPy4u;Z=3gmmSj__YZ(l8ajz#k+<luiG(2^0
zg?N;rROfhIYP+^G#h!J#jOMlitgVKV>#_d6(U|Sey``#C?E?s@yb)RDupU_*fh)uC
zxI5mCjsG{|2I4$?cQhLyc=`iSY!sQ?sQU=@o7AOY>A230ob@Gkhx9>2Tv!BTjwYUQ
zg%(ARwm(!O?tt|DB~hQn?=JvI)xd;d5IMs!zqGUz_eWaH#fQ}8GX4E=<g4=s>*w7g
z5W9Vf8=siW#cCJdmYkM`D!^12D$}^O)9@1suI*L<-epv`nEvqQN6_?M+EOsXdh4zE
zj~8c10}MJR7-?h8+52<f8=B9~>$d9Q9`P7a4kMzer4Q*()&w=~_M<K6&!_iy^7M5a
z))8=Kr4&`*(PwX9Ke-{IQ}p<lUeMoc+gqaDB4G{HgX69v)IV6!33D%M-F}np?K8>z
zrDmp2oh)cCWT{rZ&|FLPA+p0HHcSVIh9(;QXQq+|m@Q5gX^W|c#~%z7Q!yjRD#I)$
zNBzGeA`9=>miL&$0U=OkRaC_0;p8_o!bt0AYz_agh^ToSI$D|lW(J!6s;hP4^hjgq
z%1P{K>$vaksHblA1Mv*607=1QCuHBG=O8IN;jm@h2n|gtUW&T9@7>?CDTwH)m~Sss
zA3@R|ci@NY?UaW3SH?3qU3B;ZhJy~i$^BC#BXJCj8KxiJ0#{>h5cm8~+g?`}cedJo
zV*@R+-Q>uhw4F*&CUKP<eIP-CM<lW$fFh02zXr#VhRZk^Gi$HhXTh@(DX|Q;#5x`N
z(DAMy)G`F<D`>WzS0NlWpfk<q2#Fr?(`Y3YsZKKFuxW<_E-PekC7sJe1KZzmdni3~
z3?w3G@iLanSp}ol7%mzV20o#R&*iFmf^Yols{4SkttDZN3Oe|P$flC6Yks`g!}qM9
zAhIy16I+cjf^+-oh)`^Ff3B}sd-qJXCCTrz$1?>+9f&O<VUF9Vi5{<(m+;y1P7B%B
zQ>>)Ue{`dD@@7;vkqTKAFo$DTs2QSxt|x}<Pu1hJJIC6~>lr<cjpKTc^8J!e(c)8v
zj`H)8&AM*dl>UVxlQt_oi5h53yw~$*S0ZG8^5(T~8{$yZKgSB)Hei-${PU;e^b)*%
zo;=knbIX5UmwtNUU>si{lyMzHcKO!}VEgiBr;6+qb>g9AhG04i>(+#V_;gM)$i}yx
zi&SMP0D_Fp8NJyc{+umx|14M<?+5r3zz@8cA)<Fu0ZCndB`&OOw8mJ7l#5)GM*<by
zvR!W&o*X-9KIxJI>ARxO{;fvtNf^FBSca#fc3&VC%1Yj!SZ0X7N2}i#wJi!Xuwx%G
z0=_gz4X&r1C5~NeZty3;s3J@~;=Lw}LilZY5I(a?07=m#)$H+P>b=acFc5b*JU%lS
z7@pM9X*Rk;33N@FRLS9-T$Da%T)0M+_V~z2`<P^DaLkCGLqKX3%}HxvTudBNZsnm?
z4JQcK53u$f`Oe6gLg#n4E&A93{-d@86HDuo-b;CARumZ(EhX-9;G}0lpE)3SITdh*
ziG>ydANC{8;t&qL>$8fYy8<zc&0Ntl^0{fwlYE?I3)9;^8w&gD^eUIab)5>tLoTeM
zD4UHNO%;j<8$J2zp(T3>3e7Kt;<ZUOhVsZ#_=Kv&5Sk~{<|Nyd0oNPDySzNy8bJ)#
zm3w8KmBZz-@0$#mEOs@V#*MIf!b9_ZgG}fgD_4uw7MkQub)jP#5lN$52F}E_bFW%D
znV4;9sR&@(ow)K>AzaUj9O5@eN3&|S#%U4jmBJ-Fm20mG`!AW~WM!q5P#?LA)+{3v
zOSaAE_PyI<u8%4e><yfonhn<)$)skE<BFr1(xBv<*LptwR1e8}C2j=15#3?>Z%)i-
zHv=@{m~!JK*x_4+FUnc%J5!fKuB(Hxz>Bh(6jT&dt76Z+Nc5vES;Wv(<Cs@ok3qg&
zDi(;N;t!`8<*a9H6d26bd>i-`1%ZMyliT^k?Ay@IMK!VkBq~DP3s}t9E|5B+>h1dS
z5tc2qBWg>T2-u?c`giZ@x9n;+T}#iUWq2{2r5L5Ei+G2S7XoN)`);U_Q|fh8HnE;8
zgv|%5&DIEgE1H%B+Euvsh?^|>7UbIms>}!_sW||!09j?4m;3N1Jnf2;+V(JzVftUg
zpJnN|KMEUs@kvAvIyquDLEi@EkU^Ko0Gf#|Wt9;4`EDrAm~a)>UX<LjT3)qg<@{Lc
z_SC$-V&cie?!z&WKljRgV-$6HZ}RVPqNf8h(sIpNc_yL6&MCVk<G`KkDPVSj)jZuw
zW#M7^ZNg3GGiP}fW@ovqMW#R*x9WK5eSSx#|IYHfW<)<TC`sqe<(m!lu<b`mN%Ot$
zhI_~scle2kPds7k=i11|=i;rZM4oAS_~}GCKBS5p<EAf-O+xeo@B5PyD}{}oZ6c+O
zvEDfoSXPCI%2q4NJXMr#k55dc%K4=Sr*b*tQx0g7@}MTa`pZXLwJKUO#hZ6>LE5f$
zPq`=f1a&}@{GehvW<WVl-!5^QZNko}RiCpb1mkE=0mH;l?z6gwb9L9Ey^qBufJ?F%
z3@fVwOM7X{GNn+T`FGEzM3^n|t}T3zim7|O0n4-Cm30`~#P_+qV=)itYWW<I>c?<h
z+}62I+}*{QFCXYyg@5PX$ioYlo4Uav4ZDM8eSHo%cvh}{)q_>qK{u%K*xz8oA<}U`
zcmqa?SHxx4#MGR7=JAzqqz0u}`7Ky`0wHWn?zfXO0YiPmXyzri(x|v-K5usSJmx9;
z@7@q=vWfJ%*mgA0QxRiRln<sM7c7zmaB%J_@g%{9)dn~e4bw5v=802V<T?G=+#U}1
zRrUBSq8m=^kp=kNue*zmdj|jF6ZXbiC;QsGvrEdI#fEP3$4L2doz=l|@SA2RJaMXp
z`1p3wM?$|c;XZJR%6h)wpl@tJvSLsjPXXRflY-V)H?-B+FF%)X;Fkx%0!gM0s28LY
zz0$xc%wJXfBasdy9L`Gi!tM6z>Us{@DZZcCH*yxokiMu?aV620b0$oEa@bI*%&!hQ
z?@XE~PbTHL#V<>{4o2?!f>oDrXWBjnp1<No1;ozuF8Z!h9b51lBXSw5@71GchDKU+
zYeX}gFidym=KxaDTq62>jQ-tHcmFO$s5LW|kHxb??HEo79|%`l(Jpt<_=xpHFq!jU
zSFYYL4Z&+<`$1QDe%aj4dTxFp2*EU-pl^9$0K?LrF`FESwyosAx(`np;)|;P)GPR4
ztC37*=tjGG4W9EnI>~5^Y<@7p-ub>yW#pZqXOn0zG~sBkwzo-S<n=UL8ke^Bk2Mjf
zuaGB;&?z`rxP2VSbz!bnSusb9OyTn3xVF2hakpL({}=rb&tF2~XR%dC9IqLh=^%%P
zwk=`c6wj`nG^|1U6|a_aOcV6fCZ5=jDRS3He1+w4l|{r<#Xe^GX98nu#W=vhOh^A`
zKWCfiXkodV_bTUs$lB-Alx&@C=zU$b!A|vUf97i@DJJ>(EAhhiRF_I#@;Oq(<DSek
zDqHdSbnvB+mdBh!R@hT^JC_WN_w<&>G9p{~{j>k25$QOjsi)|h$Fldc)}N?*pm0n3
zhFk8~hcp`fDQV00EBh&o!Dpf^>Yc}<{~VWObK@iXGf3WiZ>--`W9ofLBV=!ZosxI|
zM3*^c(w+}D!Ru~eG)J`W)ukJ5(6pjowHc0XXpVZa!1y%F`}@{jqV@;++D7Sv&zp$M
z#E2&Pe*LWa<cwbtvsB(U*sa`j%B<3&$hWD*%?y~<toN8q7S5w^fD>wmzCM+9L(iDJ
zFMOCXGw$VJkZpDudMciHc|d_i$}#Z8NiU}FM*86eGutDF%p0xap50I{zNO;;5pglP
zc)^ElU`2hgC+*-R%%3^zFyT?+ufaRHu6n(Nh!5r*I+vKUYD5pBQW(TKuATcmh`o61
z{?3j`jIos?rt!t<j(1Q;@$I|(-A-SKsI1u5^FYl?&cxo->Q<I3OUd5k&Y)Yv$J@=!
z&v!nX@T0q&5=W)Wv(L59_dcu0=DJndO2?iN)6Uo9kkwdfpF>v%MVy%TriXL?37yqO
zpmpN_zIt#nq>Hhu)_yiLw52C?paCJAn$|?wcS4*n*Ou%kzU#Q=V8z1sWMFAi0-L0y
z4)|&-9vz6%YUBzc;qf2>j)nOEmIY`Pn5{YTs_&-WlGn?y%7%>4&)B?AkMO@uKX<FI
z8mjnZlx#Z{!U=2uo{(iRMM^MdL_V#j`AK2B7*;m}^P(W&XfBF)y*-m>VnKr~tFc@S
zOnVWTyeECZ!CqD)u?kvG){obx7ZlTG7$yXq7k%3Oeo@aj1_rWj``Toc&3Q+&u2-3(
zUX#NRDw}_l`6%#}6$hiK;@UVV0ZkPZiX|trOH1Z*9D3R`{Y&lcqJm`V#>v{l<{4*Y
zIT5hdnXo(|&B)r6V6-57S~Ma%!mkQz_2_(oo{eW*Km-^zaAXRU%lOl-dXl=?j`e0)
zZUSU|+l>IF*PV<y$d?+ph+IM*%-3UaJjl%lRewS`?y@HvnfHJg{FZ%s#Nk)nC)Jjm
zHjxguuJ9inU-O$_Th@gKgSJ?c7#Ieo*wrLwrp`DTn>FP)Y9C(r%HMFMfot#&=PV4}
zinhXvAnasmi_BJ&!_Xr*9@73cGn<Y}6g-&@^Y@`P5th<!*+ti_p?aar+52>dwbpX%
z7)uSNu^fD@YPfXNC$y*_)ymsjR{KIqXj+Pgrq<%(Sg>ta(pZ3Q3D@9Y*hW8X-_swh
zl+geU6rDrnsWrV*R~z?5WBhGo`49m0t6C$~F`r~PnA&pZ(|D^hK4JfrBb)szhlI{Z
zYBEk0yRwL&=C|_R*a{rAIB$F9SWz#oS>0EJ&ZaTLUaq!qLDH|1e+IEfxp-*20TP$v
z^OjdiXq;-hTKg;<4ytrp&`gs<a+~A;M_^bJ^z<WWgvBR~VxY^7Q#=SuW?9=(L;a*j
zqgAxcx^F&Crtq7gRuI{*`%NKGo%Klt4QMy%OOt6m2})+$Z<9j(wEyF5O~UcP@;p@;
zn@H70(F#fBR|RSj_4h^D9j1Km7}jiP@{ZRC-$AaO!`*cUq+A8mI>4y-xLe29`s3WF
z0eC>8ZmMVblg)!k$G?LMdGRCkM;NpABVn>J^ObB6cs<NV!oRoMaJamhY1^(UD>(UO
zdP@=j>t!p+7ZS^soWNkZBTtB?%0+T2_h}m^3NRxEtFnE@wPfk5;f{I3yW1$JcN}vz
zFWERtfyrzFbDrEzy{*qe{p2{Cxq;fkC}vo5ynqM!n!N5;iEKqoG%)E1NN3+|r2TuF
z{}U=1CZ?y-Jwal(>4pV?`n+8M9@b_%k*o23la(oW((5i#U!0p%u1ca-tMGdySC~?{
zj;Y)grLt|Tq8Zf^u|cm*-*4bqWa~5ktmR9x6{f(38?W+f`#3~r0~W_Z{dY}LKyy70
zCI~Gxn_5-HopY&2a;KV(Y7HE*U1!H<qTb%M1Ert=EVro~4UMb7Z|~eCK>*5##i?qa
z{ZzSF8@?ZG=S8fwhua1(tp&Lu7M}Ej`&U{7;3Lmu_GQ{G^47#e=o*lKSM_d7sIg_2
z0!&DInIJbjn8|peN7GfGdotTjlJBtVJOroubuWzn`5jN=JfabP+KQ$6%Q@T>8P>*d
zq(`%rI_GG%m8!^5i}jzv=>m(*kkWNSthOSx#2<K#hD1SHV*pC_!m2>d(r?c`((3dx
zM-?Z7&BLgs|Dh2npcNT-G7GO0w=`=^HR`yYrRU|)?0{WElf}XTKtXLMBQU_kTgXek
z|IRg;ZQ36874<XaVN=U`I>w2r9`H2$Ko>ob3LfEcr3D&b?L-!2Ak%4RO*X-1j5qsY
zCk)V&)EKO&X5K!14A$q~@S+MVqPzL+!lu09bG2+yB_TPwihr`T?hBT}Un@Z*FKQrw
zK)5EubG-=<v{hdiqjadhSQ2{eZKp`oR#oG`!<;(FK$q%wh7OT6*l5GhSHmvNmV$;g
zYnvvf2Im8309mj5l=y>aQYAxEfpkyhB!Rkr_3G<Iw4nF-0JP%T0}a~+YjdSCbVZ=B
zQ99&rbA@fgutWis!-8>cufzsIq61r$i@he-XcgW@clplaAja(Qf>qd>-iLYmjwa4^
z&)2fr5i17p$||8wRjr#x(Vhv82Jgz&WyGngag2yoYdH`G(ghD0cBSzFN72db`(5O?
z-_<Cb>Xw;z-qS`4K;4!rN&bONC#t<ZTlBBRh-&$@7+5!_9E~=eB@TLQ_XEmo>9+UL
z^HoJ?(kClE-P<tSd@W(BeA~j^+y<-}4s*#WP;PFG&KdS<wMUom7TTzR%3Cu;6Ljuo
zyyLg7Sf25Id%Uf`Focj&R~PZDL=tP*@+Jt>GSKWRtC~ax=s>C37`bjH(J|6rj<XRU
zJ05XGSe{7KP^vA<W$}pdgNQt9K_JMlTK;y*d)6|He@xpCX2^E!4FO4Q*J&+i-RdF`
zFV)E_zk0WH^Q(7HH;No~Ag_BCFq2p$Ta}DHCT?3p9~1)zUc17e!J2((@ZlWy{zFZT
zha^N{%L%GR@KzELu1iV79>Y_B2wfq`a5`>mg1pxgngkfE$6blx91m!4R_4+N+S@g@
z0fEy3Z*%1tkuRazA6(Bm_<jex=@PZIVJ3vc$GIQ@7UnsjnSvWDxMAq66?Fy5XqY!p
zY|g%e_sz*I@q6}Uq`!?EGW~6&;qbo3JA*0l9H)a2XkT_?sH*lGB_}9bngdn-LAGZ~
z76*T_l`^|zUUg*^Wft)A5@arNv+;KN>#(zAkBWA$XvDe&c&XiA9tZ?;2ATuwwf8N;
zaO<M0(9_mdZ3MLB7CJ)%z@J^cD-Bmm{+Yb2bG|Zc*ZhZpC3Bl@vJd#6x+6D*3oYT1
zEmwm5ew)sC1_m}*4mC-(=>G*i@Bag@+rX1PUf5n@G7I^{U(m~FAD|rP`Ce{BF&~&N
zK&9|YBK(gO*`k%vBA;$+^`dJ#73A63LKA4z+QB1HrsfmjrY9*z%c0&_tu^<zmdW~0
zIoC>{6PJ{A41gj6j*AKDet-AoXlg2z?yq>+?q2|L+KL?X`0fW#*qYyTg=E;IOMux=
zGj%ZZ26;!cSfyl_)w^Cb_bSmpuYY~o918Em%>IoM_Km};FQ4d?47xnfVyW#p;t9o_
z=d@5H3cRQ3vP5Xi6D=tbEypq7jixLr71S*>LLDaY-7FL;-+50_(qPBLwYU4_>`2c0
z>1+u1JAqyyt<#L2@(%W{Qyxj~Q`Iw$f08*javZz!rU=!oGi-dFj*W;}cJEHVUX>gS
zCP;D^R%N(RC-ge`ei3IA`rk%{G+mD~;-N%m;R0)>cr&pLf`HxiU%PX3h0smm)b=Ri
z{`5O0JK+49NR3ZBW$K4+WbL(&o^RRz3M6BOq()*>LmB%FmPVk{@}K@?71aLqJ(T{J
z^+0BeINEEjLiL-4C`_fA00a2K7@-EzWP7VFBNVpoOY^r3B^PGM%Kt0F3s|Jn3g+|I
zRZAKpqx-B?K)owhJI=z7aMkZg|Mkj_Aj`1TXuMk~li#QiqKz7C1*CG5C<q1gqEhS1
z`Hy)7*S{@j<H<=&X2Tna4fN7h=gQ^6-pnRtjdf`b{_`vpcz#=<@?X^shF*@d@h=rP
z$Rbo~VX}aKGX>;Ch&;W%t}n%j*RXg(RBCCGfF^!NkHK`M&<l>#9K5Px7job9LZt*u
zj-YA<q?Ay<AOo=qK@7SRSCHISv1Le7X%);WJzOA=2on*xASOOHm*%iLhTDN9fYcuJ
zJFS0`4)Y|Wvnmy0{=JwChRS}CE2f!Hb8feXU<`gLzo$$ALJdYLgD~o(+0!ZPb@Gw?
zHshb@U@zlu=ggx8|C5(OJ4W&QcM%wBe~$}MCVzMcOBoY&w)SDnKbe(q5<2SDxEoNe
zi&Qo4tdLGU>Td}kd#PmB7{f&;S7V{_r_8(~j3T<!Kr#TVQu`G)@t-irsU5Cw>O?b9
znLHG8ng1ti63sN)ctkE{5LhEFTO3}E(4>-bb{?Cyy^v8I0m%$R;+Ka1ON+hJh;*cM
zl#`IkMIk2=(DVBb1uVzbNddawPyKZM{vX?HvO6jH>}giE5SgMJ!;OYdV)0moQLRAI
z@036z1R4;^5~&86jb10mJaZhR;#UPhEMo;~^?tF}!_{v%DiW_kWeHHBe0a*(6Lh`D
zZv4g3@Jf!uPWf%mLOu%3VN;*hgOuPjLD8&;lhi=3=s(nt!Tf{kzg7cs7NIrLWXzD&
zNNj2;5sfFd!tBno797oj+H)QB%6|Q0wZJc*0<~uljXsuN%qt0!fFgb|A8OC*VHo%F
z<!(i)of8`k@Bl#Z4CQ_$As~#21LL)x3c47FQK_)-#xDs)dyb&s32}xDRDz{O;nPBy
zaQ!=U@zM4f>(nPvkVI{etG84MUT*h4G+hIbC_Ru~+qP|+Z*AMQZQHi_*0yciwvD&D
zxBp#T)l}D1I!R43VJH24C*Urj`%Fj?XuqEcs)fW@r~bdcFzp=%z3|m5i1oLGrDj;5
zs{i%QWW?C^5OmPM>|7!0rO=6hl7p~H!)~OZ)Eu3z-_=jZ#sWp1^p?Izu|-Np&7&TF
z4i{<t{i|#l>r9mSR#2mbj<6W~Y$+@vI*&k>Cli@tI2$h!e}oi{nHazj*g7#2EzcG`
zcy;|9<Dr6X%dbx&hwWY-63tbV5+ah*2xo@neoR!u9+sQ7W3Ha*=AowW=ocf3gF(=L
zL!Z#inL2dTR+{Ll`%%E_8rvo*-xsJU8#h9o!;j4GHqM6`67g{-5USZ;R~bp`uv2V>
zd(+x#h>7PWwgd(Sn*{L>V;qmu4z`h1cEnlRP<uEu^*^HD;lFnsKR$EGr&X+IAr#f1
zb#z>X5R*nrJxMWPAjD-RihXM%L<SKTeI41sAYyZA_5J-)e2p?9rk2<s?U9PVGu{Ug
zm;R_e92(t`z{rsKIQaR4Uu&Nk6EE#e8!VKy=XXj^;M~MlpBgmqaGzGjnSbTg-#k+7
z8{u^%&mREuh(};_duwQkGXUmV8E{%$IK!F@sp?K%tI3+YYr9ALoe8_e2vHs-rq=x;
zs_!L*M@eOcwbl2{Fp-ftii~K<40W+|m=W2ZY|7T)JW%T#{JJ2^>$rDFg@>>kp<D#_
zxs6n5BVs-cPZ(O>_pyvlB=^dhO<f?-nntQ9{}}F=GrE%KM{SyR-HG5kru}n8@#^#W
z-2#Rfc~M*i2LOaec>eJ%iln{B;Kf3J-ok^5@}vYXEYwBLK=W}^htphi6+2QJTZ?UL
z7CVe>YYZERbw>bT6q6>oM*F!60D<=VkPjZ>`^j#vh2GRmU;(6iC_;gS#*L~^U!#72
zKL6d-znE+9nR!vr*pU6^Ya1>dmHVyuoA06?DY!A2ob~S(0rj>pNPG<a5$gR|uLi<t
z6fZ`Sp>|!!0Pq5cfQj)$hA4@j@kE!?+}m(UE4wvkz0{o9m8B4R$He+)5YJH$Xf(&0
zrhh;eFFZcIjXaw+Xze2Rw*hpW646!NmPAKDddrMzI!7B=ILj<zFuF+^{{Edz0Jn)8
z6xgg|!RX<COo%S#+Tj92Au13i($ayP9#$ePi$q>5bl1OIoE26y07eD1qic-y!kX*(
zw({8*dG#e}fFa>+gbcKtuM(W5(&}Ex*cIvAHOaj;>KzfW^muwSR8{IzHAe+nW<cH9
zkiiYyaIN_e>cJvboh1|fwh9?Sl#Kf*G%GQ}mNA=?&)ug0H%xl*#<1<QJ_j=#sk%CP
zFd`DN8^{dHd4Ac+Kr7Et%&%(u7EU@4>n-dwAS&w^D@a7Ak?=<{POS~C-^TkYI}~#4
z6VJ#PK;94<ZG|w_R|ipm5c!v(>~?d6O@l=L@PQAiyso7_I2^LG@DDAPmm-qZ;_7Pl
zwA<Q@xQO!>c1AdKrxCG{;kSDVUR?&ujwJFPQ*RVJ8(~Qiln*~b4ORlNe$gLcRzTF1
zd^$oR-KflL8T$2w7GY=YEjF`Wfes9vnHf*(UnqJmx{=@B;$`#OTY&QB>i;#<bJ51c
z*7_#AzbJ7(18c=;|E|u&=tQ*Fh*z1&P7n{@#hk)?8n)SqJJ25-67YkK)lK!5gbYl7
zGbn+^%mQk>WJ~M2FQg?=SKk&xL_%gKQ=-*8ZJ=o@b*eezCTyIpN2_zN<AE-(V`ciU
zT0)_k8AhZetYhePMZlfN%&h+_-))1C{1|Q=>N!v#$I(11|H6J*!Eq5<94sPk%3D3<
z!2nXLv9z@Q<7UgKMT3SG6c6&eL%?qnqOm72A_BrT)$-A<-l~e6NxUYIPWgdvn@L69
z1>XB*rEQMwmkkm?2tCA3Ne;P2G|${KP}0I`PJ^UO3KcM;<j(KvzRdp{b}>C^{9yKd
zi@laH6-^%sYewg|DU^USd0K{(YFk)7(1WMo<|CuMxNeUnh)_j3{TJK)CL~KDt+F&+
z3;cpheFRlYf0KYyXYEg_R+Bg@Pv4ByHqebn+8f=Gvf$OW(RleIR0MJ+Nt_@g6+}aS
zeRnwF6+)KZ-iXR|M@#m%@GS43Ub@^OZU}niX6^S4_+x8WFXKXNOHXUTdxylz`Q`of
z{qMPtdjoHUk`<&1nbHgVc~q6wjl?U&Zy7ao{=+`~Jtij-yi>60yp&x%e=%}xrN^w8
zS45-`ws~Ep2bl+vXoI|o8f?mTy5W5#Ygh2*&zf>=+>XP{F%G)AId^!v`uX4-c74HI
zHxMv$=IIOC^yiyfx*+w<MC^h;t7MgyNPR;rz0VZpD5AV)@2(H))favD5;aM-?MD)(
z7PZ+$!+I|Y!yUQVs+W7wzNZ|#RNG%iTp!#O6?wW_#Z4_6`Q+x`LVEiQvhLId!?*WO
zLyUaKG0ta7#EDE_?~)RLV2b~H3@p5yIN_;o5E8VF!}MKzl#GlL@FemE2Vm4j=Whsd
znxEg{pvrCiaN#5c7Af#S6zCuiV~2x4j0Fy|9CKM|Fno|Dy40ZeFIt_q3qloex~VSv
zlmTD?PR<?&3~@Th;9`f<GC8ftc3>^74P3<OTaa*!K)hdwLfjcKvf}d$aK#%ZEE`b(
zWC0z~+TZYP7<y=lSH1wD#WT!Dj^l+@U`$++K?r!{6EG}d8e}v=wPn^IRV~&9QRAIu
z4Ke$tHkgVWaft)1V?aG!E@UXZ!eYSKIC6cV0qw}7bD*CLk~z0MxJpdzkbm~`HY<!g
z`oux<>Nu234Yb(Z(&&^-%{fyW95%@cJ1MPLP?(yEP}KSH{C)7b2-|ecV|OGO#zH$Y
z-Xrdw*o)&!q9iy~P&_z)UgjIUs2np5<0WB=!JKVNfchNI3^zuR3YEi1+W?T!FI3Sl
zxwuQ{IeuEYfhJ=sQh0_Zx~L(a&y@5a($Q4my@lD}*9Tw$<1dRkAsm)StjeiSlzvPB
zW>ekdVcr>qvRQ0Pq-!S{a%rm4oa-^R)N)0tYGv*KtJQK(h05m<?nc>*cM{B_vH4!u
z>Mdv8!75dsf#mXiZ|$Mqaq7em-<ltxCiCYt;n;TzDGlQ;*fwM-lBye?7<ZzgbJ9rG
zL5x1WcQ<M4Zs{tqwT1-N?EOeynL}?~YH>T8=1HyN!QBKtxmC`_=G=x;iekzRSXvKS
zjlsQM->}{Kk1?#j0BnBURyR}w$rC^4V!}5_K1A2wDhN&00;q}sqVB^Vj9LvH+-l-|
zf>J0yfUcD9vXm>J<L3|aHQ&iDa)}DBgE%fQY7L3mItwcZ4$3S|T_YLT8L(aGa0tCS
zC%3GT+qcd0H`Zm8+Vzfy<q{L7cURK|R(jf{uL>JFF<oEgereZsU_Lb`^=}G7<L!uk
zo#dz+0VcImb^ieDvHi2LNy;naC@H8r8DM$N$Ah(@m{6>wB_7f=>Glpnh;usnYWb-?
zfDmT-A(gE&OZL*t=1Qqns~%Pek6vBHJ@*;_k{K9I9awA|R<pkvSlV4$kNYCxZ`C>l
zlaO~{ZiQVJtREILijPj)e7ciy=I0KGt_CU7^n~7nM(ly2htU$2JtF==+Pu5s(^2|_
zjz;=MrMTvn?ISr(DJd-TYiMhvMT|;LshWkib$Q(`(3!4<DIQ`5{H&K?o!7$D(5}13
zX!J49MT>60iSj?Lojy6>pYUG{Xw6}@U{}(=+$1_SPMd8txu0<~8V$#B9@nOF3#Bp(
zuCGy|E$8YnG@OaqOQ)-PflJWGYiNKC<2l@&NgQ<d03?F(Ab?E&T%X^Mo!;Ads6~gb
z2fxO9=i_SC_UqP42TAC@(kRv$Ml(bk%ZMT(P2N6jJsh~8e#nK9nS8kHI%qR!p4{J^
z-l#twSRQ_$z9=Lb*2^g#Iec)oBlN`Oqn`rv)hv6ba@Db_+8IdGM)Mj;bba`ehB>Q8
zeQO_2@^Jl7ZOUl8r;A+15(8mr4&y)`SSB>aHZ7Q`&tZI3akd;c|55)OSaG!P)~xFw
z%~tR|(6tJ(cy!>Ci=6S>H6+SR(4f?b*yn9W!C$MLAi=85S5YVWAx}SC{RD9g6a4EX
zO8^b%DyMnGrRCb!8(x%oSI|5{J+9cYC{eQ2&*c-(ozFhLhrX0N;y69ntaR?C+|^>J
ziE92+T_mft9hS6N-i3^Ia#;LuqJZf#>=>HHD0MO{lqpKh_9L*)<*G4;rhQjC^G5P=
zqsS>%?8t*~8JaR_{oOy{K&o{Eaq4GCi4V}2^v|Ku@cffH3;QMytlb(o9bE2R*(<|0
zTU}SX;TNWH9`)w}*cb~h!2*V9+xV8BpgZV`JeBb^%VmI1w!GDqb<g!VC}hJ*wRd!w
z9Zc$0W1O!J{S~7Qa;-MbwxJd4*4+@plrsu{F>cQLCtSzn{VB)Esl!<0pB~#TW5e+1
zI2MnjLL_?&Tin3|%VzQIZhR4OH;w?gUUAlPrxYp<yLH}!b)&Ca0oiB>lH{wypX>8p
z$fvxyYB%)Dr?o<B0MYB9l~uFuKp!J3wC-O0Q=i7ZQHn2-Jazn{7x2)79GpmU4?G)w
z=~DJ@|4xQIt@tx8x`{YsOSf&O(bio@?)P^gwj}W93)ze1(I*3E@B0tJ*nYzeb}_x`
zmD}FtoM(+t{K+@q)au3_$a|r#zkZ4|%(WNzDO2Kg@AZE-0AUZY<1cBvek2l}IS2TJ
zD@1nvyCNpmAGU`h<1}i+4u1V0<VIavd(>H=x6x|`-O}jJbxQb(MVj3GE;}w3>)|<#
zDH;xYp!j%w_07<HY+O@j)^C3ccbvZ6`&(`0TSul?WO0tK*+R928Hcq+*;<N(h-n1)
z*&nnrv+G_Wlf4k=5@;zwiw-iMPIk;gPWyWN)Ca3?i>#gBmlp@YazvLrSs~QvyV^gN
zy6t=IS4g|PsQkmHf?7p+pTk~GM{G=7j@+;yy=hqoBs_fxA2u)xkiOZ6!Z@*9x#{(@
zm!Yr+MA;|v(U4s};xl_L<5Fl=x?`9R2iJL;EV}n7weYE1o10=%ok6AAW0=MJG~<zj
zg=0G||IFEpE}5bu<-O;Xe4n^;!`78lD#Z4|x{Q$G$t9m4lF#B}@P_M_&)X1n^GYe4
zc(H0r0tgUT=B+U;95--FJe3b+a|U=kmy4h~o)>Hp+~!O;Cf@+EFB3ZKJS?HFKD@#a
zr-G8dLU%Y+Cv_fscZwSod;h&f*yuHCPdN2m^}E}|%>6ABHo9Uh_EE0@eU|>iO;R+#
z$*s>97DsdZxbIACV@6_KHgS7?^zSLpPwz)}n>ToeW^&!Wp6bgf-(QaPn-k1$m92<F
z2j_4|#(2Wnib(3y?4ayT`>}24Zmw!t(01?$f<2Ab%5BQJIaDZ*DK;_6OjiA{Y~!s1
zw=oP^&-)rv;?MdjdYNrAUneI^W;?{7y)&-RP=wNY;cA<<qb9!4rah1B@Fi8banK4(
z*}8WW>9dw1Z9s^gGC<S50_zWjAC35vuhfqy1fsZo-M(nye$CrJe~u_<8c7v4gE_#z
zLjXYVw&09wh@rE&3s^Wh)IrSP9a@}UFszG^AmQl+-`R)B1XOg_x^vH43=!7)$YVM^
z!z%U?v>civWhEWP$rbBZVoE2p>JRbYc~?28X~z=X_DAX3t>H%9_DSX1E%H*e8_NO>
z*`(WMvfbIt<DMhU<52R)cGG_4#yyJ{t=c`0e}x+Mm8;={lhTbVtI~3?VeA>E)pl%|
z;jLMJb^GnC3$*0zqTy~+BWwkyUAq>mr+j*rso&(!DBIi`D4(T+-LOjHJV|F89m~}o
zh~`s}2N+nS_^hy)_t6)rA-}D=6WQ0JOk;YEIvjn+S*PROvaGOxZ)2+srxQ(z$8lqG
zn<YQCv@KP4PQjEqDSkK>X+E%qJyS>cj~ic;bmto>R-3}VHB!+!L>|kRtkw9?&)8N>
zvPC^N=+inoL?+i28_&q*Q=ZZO3_e9VQrARHT(|koYj>WRR_HlTKZU09#LrWI#E)d`
z2;cswH)Nlq#UM`?{s<_CsLmteZ*@Qy&QoTYQ1c>+o@ykTYgW$>+x2WOTh+}!OXQl>
zdYbeaOf)zaQ3JP*n(!>rLJR(4;q-f&d0Leu@c1lJaifVUIEhEkt`lvL{34IEqaf^6
zsJ(e*r(w%Pp=V3Km(ng+xBG8CFv+reUL$IYmh_l{=;^BGKEl@Pp4VclCU*?-w;7H9
z@tVmMIKSO<zeeFdqxOo3YI6oVP=n}KyWF{&VmG$e6(`UVR|+8wIwS#Fk4(4#yMYJ7
z!~s_rn^2J;pe}JWPvT6ph8pz+=@4Oc(m%HhL(GJO%Y}57U@?IVq016M=}>6~7+l~*
z_ntyJW3!-m;ofkzUA|>ZkazYLB$V!dmLSlsUrs&-`NL;B2qVH_jb(;c76&595M<Cr
zARj1kXd|3o6>AWY?EOL_|7TIQaaVYPq*VM9>DVE-vaIY0N>Mw7#lW~`tfHd0<c`2V
z;&KQV=&yXg3R_vCEtDvM%mFC%A!-at6N6NF@n+%#DiJh9asI!x<={V=jfEtMhH2nX
z=T_PB%0y<&XuS-Q%mH=#9mVmExG?xh){-P4)-FVp^?CtKQ<x!@4B<}o{Yzviy#wWZ
zDI{|PaD>JS<54B3p)s{pNL;kG5amr0p<4IlO=~+U7WGE6YO0!j=>pibE0CUPN7OCZ
zYrTPNsWYBPwDr}QeY8NdS5TY)619DNg{>@5w4R;$b0-QPW8qDp#^8t+Qe*dIb7(I4
zbOEX}5KW8}r6A#3<Z};s`&Et?R*SKk*pq3io56p0f`r0&{?uHGMTYDs&zR8EGiV?d
zHzh<=4&q`txNHd#iFz?}4K1G|MqpgSD@4q1{6#9_C8lEB_;!vshD3^RhaGQIHf%aq
zikN?qBHbxgkj2BOolKwckXmA3te&Z0mPTS!kvIy@T^woLQb4jvPd~T-My08b$LMy)
zqC`er_JlI5U_=;l=;*ut&B&4;`XIS`j?>8qp&BM!B2^fn2>lNg<8oqOWbkD4mR0Nq
z>9{Ae%mHQ$NA8GsbF|{D!!cUOCC$C<R((TZ|Lc>w#=>6MQ(GfV04ha_CzcUyuVhYC
z7T4L*at3q6M%6Og^E+dzrmdb{g^@Uo3-^7S@<kz^54j?;7OjcM_{mx0h{H8&P>rZv
z(CEbyYqjAo@qCbFbObe>Nf&E?_J>(wm4NL%(6hdT`yRyr{SmC*nFsfoXMqPXjrfs`
zDM|p2Yl}fYo|?GaADP@n51zx$rFdTCv0+Otlywr&0Bz}z<t+gMzmPGq8g|5oH~m6O
z9qbjs!qbVM7dTn2Q`+BIr10bUy&|ThJS3dkow<1*&Y2rv1S$C)t^3mzJSU-7qTZ+%
z%)Bc{z4M$35wET)Vf97<AQMqMSpbG8N!Q=RU}p;^0<iqo@V#Pwr7tKTFT*f{wgh1#
zX2@P;hgjE%sTQ+m-q=eCu_q6vBU<Zg8SDxjxk4_s4g1GPpM8%tuxT>J&<H_$S%Sp2
zp)dD+38C4gdXx<C&pZSn6zCrc=aOw|uHdT`iin~>0EK1}J$%_l5p5bsgqTmf-mYpw
zlx5+#`BsE8!HXMD*ttp_x3*DD1F;OOra@t4rjPXe5qT}(>U^PPY(oErbNbLrbvrq)
z{LkUd9B@bj+?rl7q$j!=-0pSg{`8o4Dqxc-w-vYLGh&Rw{Wd)B36)+u8tf4w80z)6
zjvRQCHiqMfl+bk6BNj4*V`?5mI;IL8S}R1AVYMtW&uBH6?_$MMYTyguZ;4{G(;;_D
zIfv}|@nalWvamN>U`LCnu_Hr5QF8Q7Ag=Z{xH11O?Tn|+r?bOxA5yw4e_hX?vnQhR
zfnYpY5!f@4tu{#Bp*ZZhNgaqB-JvAxxu`Zrs4wvtdUk;FY#=azgZu#ifsq_+fU!3x
zsJ=GjFk655;Ua7T<tz{2U@E?C1i+f?LSp6ni%^Im5AUrAy)pujZ4OtZ@L)_SLF-8U
zQ4{g7^204yf(v&yB?yk05+N3HcrpYgxE&NAIEE<#0=gZ5!q_<WU;zGdLJ*gC6z9W}
z-^gzsz~Nl6|EbE@gAsP*nIVL_%MY*q%f<_8$e8?Q2cRgTm%Y#Y;BK1HT*#&YIn6Fo
za5;8dHoFH<6uH*Uzks9i9K+>b4`nFA2*O~UOjesOa5P!Z?r*wB_8|hhOEPYUpHK{<
zt7!xwJd!!aOmBc+J$)ZQ(KtLqpZNm_1jaL@Z5F*gz`_YEhJVvLFc^UiUH~J+5i&-Q
zfNlUK#4_~?XaEne5<-PvHSnM14>*YB#TCGUjbYq)#}*b)#4?sr0%hcF*uR7ut8n3C
zY7C%=9?+!(T0${4aoIA0(kU{Wlk6aj&Gk09L4e_&05aef4|vjo(lLrz;0C|L2f2-I
zFlBhOGXpqdgSAc1@B3d9t4DGefejug=6I^SK%j%J@k#~(g$HUF`D7kwU=&u0WdxBE
zo%F)7f6z`Sh}m}GhGi}$x}kuPiFpS8g+~^@8gYCll))912loHczyT-A!XV=f`(&*e
z02H0LVf2-I;E^%p*t0T4XTBPM6m>-lg(*A=Nb4tiBLHKt(hmWMPQx?$D?AEQFbwj(
z6P0qf?1Tf#lKTw-lqHG%>A!zDPD%&TNGczvX9T!7$-n?`d6a?i@9-ce6Uh0844iL^
z7YQiOjvoSabUQ7@D6lau_n%Oz4;0?9`S5yFm5%Rtrv?+}_MjmX-}XiWF3#yfgIX~6
z^Nj*rvOQ|~6+KaqOR_srl*x%dh5*f3;6}d!{y%|k1RiOPBKrAgOd)>={LTcXZuejc
zQ@3+8o34L-GA~~jDD=((rf>IXNui$<^v(*>w7+Mc3kz!N&axZof5xfl!H#lNVEP?{
z*5Yo}>8op(E>`=6a^W-)OPoTzOJdjH3a?_)WIUdE{QNcXfVv>>+pf9;veYO4r~-HJ
zuj|9R`Nzcce(Exm`lZW$5U{KrX%>|$X!8XBEe$-k?I~5E{^>gq{|<6;j(h4(a>bip
zO<gx8cmw@VBb8)JmgB}Gx4LF;`537NCy(YW&me_A8fl`HJlUNd)R9=M>SHd_u}x1z
zDe_cwv_Q)?jC@hO^L>=6EA;`_=WMG}OYE=rC^8>vV(?=I!CMnl<iT>{-+z&U<%^CA
z6kyMHBzhLDI!%K@mG812mru~SXd$mLoiZGQ^;TKH(+!J>v|3`dlw}2VuHPn}iTsxA
zCru`Y`fI=aH5=z$URR;5ox)ZqWYa`){}+ZHoAO_5x1x7)Nthw0s`|uhJOz&rik#j)
zWbKJON31hvApGb(|M=gZ;>>qSoY4-P{-!qB;d{}lB<VM>Oz$AB;{gZioz}Yg{JLy?
z4KUQvz=3PwRs+K0h2GF9UZ^Z38Mbb_VEkjp(7nQU#Ww}t(~cPM{V2TEk??_Ipg~dq
zx>X0kg%>Fpax)4ll<IVM*{FeAWK(7C9-NuiX1kz)``Wv^MSVjRweH!n7~XTk%hsK}
zMh>YGs$tX-kj}dmpU&CM`cab3`_>!z!+&9|h!VIzL3@k`Jin_b6t-0eHb65cR&rS~
z_OTD`Q4+SiglEF6O?n7XKC`C~V`Do+?U8KgpFCr%9-^#k>}&uf3?Cr|N9{djd`^Y7
z?PrZHLen+rj=pr?_Yw1?1>Od|8v>}ffiu8<bD-#8t?Yqw?gq)%z0fj-j{pVM+7sd0
zHMwG0d3J&yg7<&nNt_|Gz3Cb&MVh(Y#7neN=cib^gYw5d1BJ_a1H1mOZ>X^~R$wb+
zNyy)aaEUe$a9E=?L8fbm`3_gy=Am40ndP%p6J}eKp{xT}r$Lp=Tm@Xlr5s_>(~>+N
zvis~s_r&z_CltQAgK}5Q6fl^P1zOC-nf;)lIbzF+VlZhD34t^Y6|;WY#n_4^hS`hK
zbx39nX7(gf`)|;L4#KaVe1s`@7!qlFurlXKd`f3I))Uc&kjPD3ec^>m1|cgB4GNM9
zU(Dw2?I@<0q3h~*g_QkRdej}GpBV$u9i`Lr6%O#^F(|5_zGqOn<Or<72I__27%mkX
z`C9jY4?h%Dx^rAV^6?i>8@*uO!{!6U(AC$N&$au1_#|O{i{jX`FR4aOvS}%BT06K~
zN$A3a!Poo{c}B8FEm9RUXL0jm`}?3fSnk_9;3D&Y|J@k(fP`d4t;TF}AzdD13^=TD
z=gRJT0t~o2hMi4BXH6_&$^A_XJK?r|Lz1b!G+G+^@f<~(5O)<TAH)`Gld2WzfeG2f
zU{&&|ya6w=U*LUknXG1hBU4;2=VcX?iFA9;VL(wO?>2&Nt<P{Scs|wQTlJM}pe%ta
zqre3aji-~_cMh#a!U<Bu$T7l1^ohO!m0ad1vLg!19=Jf#D*Mb%!0=hX|J(n1;mZYu
ze;uSFj)3o%rk0_Ip<{pnx_cOS5pDl7VxMU*+j_tT09E;;ug)nnbE%btC9?0fZFWB5
zeU4>=G|{ouEvjOA*WC^jpqPaH59$h><SsjcM;>Z));u<MZ>>s$LfY@iCEZK*9<Tk3
z7~bKXWPfZhhCxty2lq$NqKvY`32cDd9_kz%C6t+EFyF*osf1e|qv+oYa(~j<maE23
z2gLDIu5$t6PIf7l@@;!30aI}Y)3#VPa<_>%uf9WC8**_du}cWvB|Re#Rh-@j4_V(K
zh;3pagXh4Nwf~|;GV=mqa2CO(u<qYl1Q#qIat^|LF7s^^jcV#P%cubgAtoaDeV4p1
z=$VR70tzzwn5q#o(XA$aqcW=gSgfM!lQ$Q|!8jgV^sx~X#yk{JQbRpb%=wpMY#%<O
z{xXvD5$F}+^r6l6+A-b2(8~5+#N~&8q&iPM;S0KuT{I0w%el<T%O1DJ=GS=N0%`0)
z2Rr4XcQ#V>u6+?Z|8^MSeEr>*8Ws9Ol!Uwj0jryoe7oa9fF%2so8(XjyQ)4BMfuW9
zgY~#*NK}i2Zo%8{r^JO{9%cF)RLIvJwboip6QRQpaONhFzO6G+9w?D;*(c{^dachg
zM$@s@ic=Y{tYfB0%ISuS+fh)^SGQWxqCy=_<K0V<o|y(#(D$a+1jc*PUvqWs82dW(
zu>BkVr^t?cXjCscyLjfJFrP8d)4JhY|LTKXKjZG3GGCe~2FG`y+eZI2Uox5Jia(v1
z6wnjJ+4h?EzE=!Su2Qn8^Li!AE{4fmT+d4l{!s!ksFs?6aK$O5Hiejc+I;O!f@jt!
zJ<2<KcZ_dm29p1%Y;8>+A?HMIQU1?%<&hh<v~n-d*Bo?=lMBUM=0xF@{qRT&n>nbU
z%SdC-g>*i?{duWm%EC^42#kbsT`SgFIm8ee_np`CH{Y(J|E%XSIC^lIfZvTx9Jqr7
zGw5gD4l-XXY(x!;ebWwna4+7eq@@d=`xR@Na3}Inw+_G<rb%X|w5Q5LKvPVX_l3$h
z{@orJ=!X{l6Tdwq6=;W<*^yp9H$yP%4oKrjC5r-&z3|-7xYBLi2j1y%=#hSUm-!R*
zB;}W9V7m)N+aAAsR#r>E%dHJTc$4mATG|~Bc0ryTqf5E~uD#Sv3z8X#Y&xp@<T=jZ
z_&o@<1D!h>DP+JdXoo2WxX0vQvwL{AB;Gr~JahozxlpMl(ITEZ8xg*OESR*X9mfyo
z5*VR=sOu2Bb)AAWSQ2h`(4f9cJ1F`kw3_2*d>;CvhQ>U#(?F5GHy5-~AhN6JnlS~6
z>Cd*4r(nyTw!`5ah~Lq8+HJ^5sf%fRUMShp209Ey(lUB;BM{BHHdYQ%wzc5yUn4|i
zGbTla`+Fk_KtZ){29aB^&0ReOS+K4Cww&7qock+_v}Im8vIr*UdPwa&=8lN1_7G&P
z#gGTwve+Qx*>Oe3&%le0#Ql+m^?rtH9J0gUx~T*VpWwsR6dAl@VKfj|-`9<$Hxhz%
zML!oShW%n?ZW7pqVzx;4LZj&H5duxT4|oan6ZySJ$nE&JaI$-FXNw<D<`2zANpxOT
zZc+Z5X|0np+eAtz>|4u3xUo5vBAPV`rG?Q)iz+)F!EJ&yDk;FD1vImb6BZ7D_z|yE
zc|D<@wyJccZ4;pKoJ;LKTK$-@Da-)6N6Qag?2`KKOl5DWCrRHlhwnHE_J0NPUURkc
z<Z)IWzXvxKAso>D68PQ1ubyOiCeCrVWcau2bsa`F@Vrn<Nh+r9*v}w>lNnkScb2h;
z7<U6g8qHU;+$DXh(=T|CT=K6S_OWDq#s$o_cgIkKg<kD`zl>23hZDlqIMMm)^)E&R
z3l5cH{l$hne~NtW7!U*6DA7N~GOSfa1oWK8e%!myErICfxQwguBD46#lSgRJqbLK4
zs{Lw1A=P_|#e2;pp*KyU$UY7xY*as^7>g(JwL{SEOL+fbAw7q^ah7O{EBc-(rWiN+
zv42loB>C0?eup;Ebicx7_@<?D5)8P(W$s^vrIyqz?<d}%4Ux*X44W+yCD|e?c((FG
zI5&&b@VLU~B(c!|`*N`C%4k%Ba=kr+q$^5{-r*0tS)(c?c-3q6ZY{>irT@8(BhXrS
zvW<9E&I^CFgB&zl=k^v|J<`>&05Mi9{7L%?fW}E*dbt-D(xV7s=35Ns$X+nM*?rs^
zg`_NH>sf63rp!#pzX$hIoRr7_yVo{qTPXc``@8F&QmkX3{X$Jl+4iDlXMf%HfS}a(
zI=aTs27l0Z-qdD_{v|3qXAr2ZpI_r^%X+HzQ@zlZj#^UUIoRN%4d)8&BS5~7qhiV#
z&2M&$l;n-zT$f-I*Wp-i^9jO_oI5fEe71Zq-Z1Y169<iuX%%8iXXz{y8N1%c!#w{m
z-Xz-A_Q#)ZfZ4mTfR4zzvXO7+aR#8~7r;Au<;%*s3XE~(CZn%BKY9X(l?u0?avW-k
z)PuJ1!2LA3vWL)FIzZ1qzgEZmQo%Ah1M(ZQI)4y=UALSO3)}lg&vXf3H|_hIUrRJO
z;62cmVas@HWgm6W0wfz@{4Z_R?itknpFJ(v&F}UHsuGYEn|WpoGMkR-KEHeKI_UIS
zv+Tv`op`pkE$JbgCiZMjM+-1|2lRa_ZO8NgnEQB+gOjEp8N4N#o3_Pr{TTujbN_-d
zM}p7he)GU%_`<uNC%lkc_P9TC`W`r^BF_{pqDz5?GmX<Mzc4x*oNi>N2er^|MZUG3
zi4D8IOpx5k{Q{yE1jbra4WNHovSi-<#Jb2ux*%^Cu5vQrH|r1ix9T04g?{TY?^dPQ
zS}xMsuSZI2|6Aj>)p21Z+IHXU#@&Dd+*3XLwaU`}YecFVV`*&L=V=>Lf`M)=@^<(w
ztt=NZ_flnm@f*7bdXdJY(xshsC<kW%^<@>tyI~KPW?&2}+wh0EtW)0iEWlMj2+pvE
zY9CrSM^y<B&?LP<jq6$19{stTp$X+XnEGFca9}HrBSvJ$1l~}JBzTOi(2jZAQFQ>)
z!IS`mS)Z?1BNNCBT;9+7Dff4Ms(E@H3hAVZ5#UA(FF`23R2$yMe+LB72T%ARi?NEj
zxK$qvTIjwoQT+lmkRD239qHlpb3XWxfIT-U0GO?3ZTd9WtO$dEkp)K?c((Dth0&)E
zbO#@@2OoAQn;8RW+zOi5Ku*Af@=0)#RHj5J#{umeBvD@p@8xwwRq|Do!wb@}{AK9%
z1^THfhiOD`Cd;PPgSjxE?@qj_>5``Hld7Xf_56j4t|5p^%*&sZVx~mHd5ba43F@h+
zhwu3eFU>@D9v*&)a`kDmUY0wdQ~@zJE=Mod9!V+DQS~+G?swN}Z;CgL3LL}vYy^h2
zHL5Su3kf4OH0|SCR~Us=TI)UmWONA#_p6@q4a&{&3F2O^FOAmI><6m(!Abe(lGz4P
zFIDlzg`4hp=$9lLFY|E|q-M<Y*{Z`hr@Fs{$W2@v<)Kk3=Xs6iCy0E{^_b|F6f)~w
z369?6y?1-~mX=NUC5sy@^e~Yfm6VA`@m^XdOYe73lIJkS9oQrmE4uhRtZ!rIOYxc#
zWuad1XG_$kigsgV#Y)hiMM`OviLyEa+(7P@Vv2HvJOQ#j{zhV49z13i76Ndxuv{KM
zwVqh<W{qS1+S1t052t~o&|L3iu#Kz%Th&WsY(?mvN*Hrx_8p>SdJ$R4=TBSO!I&Yw
zYfboDXj0$++_)pqTmTqaJJHVm!Z3XcF#fY~&H!h@7B8DH{!)VA?g?`9hyXk#*cLAG
zh)AYXz}1+_!A!dgh!=C1T!C|^Ds1e+YbepN@_M{BfdEuFq@fU-3-Y1sOcUo23^n1<
zRG@@rA{L<n+E|njwGM{)3Lejrbhv<)2sKi`AT@LQMu{@h2zxc?%plA@03banO!50A
zo_Wds1V0c(Ts>iMfL@L9C0VGrf7Ud6?xdp$#fzju#F-Y5<U<H7L!bn4j(QppKpD>v
z?k#iVUu$}pp3~1m`~ehT2&XcUPhvrXbLI*4@n;>Rn~-VPU9A2J$h(<C3B#>=WD26(
z`KDkBL%!lI5JrCJICBMOk4A%arjHSrr@{66g))c36A46bNci7swnPAqRJDs_#uAz)
z!fM9}jUt>d2Ws0W!HADC4f{6{3Bgn_R|Ww_kcVO@*QQ4bs<@yAUEnJ*mW$R!Da@pX
zVpxq$G7sfz8leVRN~uJ{7B^!WcF`FbakiLxQmsG_q+=RlT%>Ea9*MpP*?v!7{Y|eP
z{&IDOQGmU$bS#!`33b)c$JihUKpceb4#f!lAY@Q{F{ByQ<e|5UHZU9o0dtWkH^kUr
zRFAojoZA8_a^-B<kxp_q4MvnR>bcH8`)G3<d88}Iqlius!PO8NnW%`h{xgz8idnS*
zD_F|tP^c*A=y2Q12%&vu2Vq!Zz<z+|z!mPyF(wSaB+hNs5lRr^9zTgORAr!~Dlh|f
z58|iIttBW@{vB1%^(9M46#{^yT%@kuNkJTVMzJ78?o@qF@sO|bW(RB8H0C%m4e6qT
z<QymF4ooX8e*_4Af5l*a$U6|oTVt+Uh(&7l=>F^Ovc`-nVlCy~t?HmLr!Z8dD`VoE
ztmaM<S*at;4Utvep+&leJz&3G<e5pHGbr+K#G^1<T*2;i$8fVZ{Ui-laJILWST@zF
zd>g@irk*Jy*~H2!dniku>8KWQ7D$@Y1-%PUhIwfE5Pok_(5t@;BUYqcB&Eo`nxMxp
z&dS!F5BxU?c>HBaz-AUX2g)uWoLfvSX8vF?rEWU;+6WjV42yxGoVpjQ{25+;d0v72
zbWUD)Rsxp9EZQ^~!C!k>g+jNS7|(u1yt%(tj2~BGo`f(RFcAZHSzZH^Sb{e^k%Q_?
zT*WBuS%%fQ_#`=^3%xu61++{vpjBL%dGChHuUrfG*Sf8W1YU>L2Tt#QCj);kUm2>X
z6<Kj2wA@N^_iNu4T>!C@(^Bx7+sqj{XVm<)Z_{0Tum9S&?E_W9->D**rmw1;D+6R&
z{RSO)Yu+tOw3+TV9<e(m8F&XJ7a(-$pvs;XMcDGKjx40hrqzr!6+uioo9Bvb@>rli
zzNSkfM2?@)-oHjT-Y1}BiF(;b5EC%SIC2lPngK~xDbf51v__!fo8r;@hnSYZ;@7;_
z0RpG6xCM?UV)4e2DUk{EB)aPZNqi>Q;)R!zaf?p|5S2(0N{zrFnOv&~#$yU#NfJhl
zKqZQw(g|ahuJEYkQ`E+wk~s<*fk+qqsszTR37E?r$SKF5R8#PcK`R}v)cY$MLaPk!
zuS-#@sM5x;QtvO!w#FHl2BA8}MPK@mOcj_8$)H_vHrV<uhDfOOU1Ae?86XDh09SCP
z*8!6xq+j~>+Gf!(irF*(D;u+`0s_=_vC`j}SkFoYe?yoHtNfS86;%5!cqpy(2R7}X
zr!sSwBb0vwvZ<Ks#$`QIP@BjWC!jQwoK29Yo$KUW73;4GGORX@$pt5WLn}={WjHtL
z160lI*M*RQG=&;hpk*S{eiLo}r+zbmogNVNYe<4Kg_Q{g)DlV>bz_^$^k$?sm$^v)
zjTJTZ8%y3aSXIomsog|%Z-a%I+TLa)1GSCqeToR@s6Zn)D4E5}{^Way4u_;-J&5_0
z&~0yOR2_U~D{Cu&x%GnE{@B_AUKXcgBZxWAxuYO(<WU%0_Gn-|2-(8nWv^vLR0Mn8
z5Pl{Xi<(hnW$$Vl)y6Ofm4kI_7)(3K*6dgDZk=>@)xW;j$;LX1mkqPj0BJUk)!Od$
zvUjC%$W}B9rJc2923<4p$Q<OfQ~Xb(U#a1zYL7C)U-fRO7}(04iFXb!cM7E`f}Clf
zYJdF(K10$RRBoKADX@$LV`DI>K9TLd>NzYi;5Sr4v?*{E5}CE%X}6R@6HvJkwHlxz
zBFYtjdw&QGVA)wz%HPJc2vvY}d>$@8@zxwvUdE>hsN7WWH!d>KG(eb_Bk?uiibbL-
z0yk#TuNY4<4d3bEk@Sl96PO_DT!1oWpZ`ys{wKZ`;Ec(U7k}R<{}cR+Fblg`6&9dQ
z<W`GNC$d0gCeqNl;C^<RWw=wep=GF3ImU9_>Dyg$)al%m`KIYbU+ej*0&b1bRsJ_8
z;TwS466np~6~?iefZH-e%|IPla+aXZ?9EGT<)FZ<8+rDYU|f9hUY4NGGFTO;OYE3`
zUFF@9l&0l_ggh!#^><6FGW%uWOlz_B;lRU?HKzT;#GEu^>UhPdyO*O!<(U_o4<35^
z{vbxQr2!uPl2#mR{XZtun+@LxrA1d#;x@^3>8A*BGyz=8@fcCTkFUx4h(O)*Uj4Z9
zhd*GBQ%y~Ak(EJEr~SVVj?%OcpXbT2!Qr4Zls*p)!$_K@!ejP(t$)v8+uC78(E1ph
z{fOcQ!gUrH@a_Q(UXlpXqbzm)26o;|nhNMAoD-#2ooajDr0yAUK;ZuXXUef;6+~xi
zK318cW@;|BhfomHv$fpDdOZmsY$(v#&JguE(5?Rl8)<&E)1aa21?K(qd}ZwTfx8An
zHca}qC-<eJ=>{i(h%A{1Dg(A<0k(zvX*YuY0MzzLAr%aaXarwrz3Ax&>$7a6rNN_h
zz?U(Y-3>?@*!l!<{$xjFHGu>KR(=|YI*et;(2v%Bj(R}=j7j{1qGYPVNdyWY3eyNJ
z4VtH@+lpf}jTWc+Hn|5$bPqMpCi*G$Wrms>C%*`_uy!fJjQ!enm|4it2Q5~em8^5$
zS`@WPR|6?K_6|cy+GfO<Sxd_g&T+@|07)?dqk<aoe^bn?1)m1)hO-*B@C`J6`x<AM
zinV?t9~W(z8M(t*H(xE;J*=bw|9lD7>Tmj1=j9luxLL<4#kT-~-zLcA(=j7yfjpOe
zXHF+U#-RNM-@Ko(<R0cCy^B7?@djjqZe9(oNVW!J#?o711^6Um=naa$Hb1s1LQMyW
z2K(A!<=mW#XJN3b1?BgbTa9sgw}<g<C2_90j!O#{aw~aqdJ#9Yvh+gB=`<6BFebCa
zNQXOfAx$9GVskPc+_Te^f|HcO>-D7u^G9C7j=8o`!dzkUB4#k729ZTtI`?fZ9Qbz^
z$I7q2yMTYwe2+gh0-jex{wV{4w>}OY&<xP4hxd~C4n93>;L8Ug{ZE6NwCSnENyl0@
zh7oL*V}?VBu^cXBSzwCu+1^ln7Dy%FCS#FRn{X@lBuf*Rj{%V+yn@g^kXb}H^A9PA
zr-5Gz!sA020jaR|cX&~7pD-&`XrC}-!l4OUim<X2v~1af!E(Gb=789?a-j5~no0@?
zQs8bf!8wzH3gHD6NJ$0Nuu>r$;Y9qgFrHzJ7`~)jgAIEUSar7uU&r;e9OP4jFlbDP
z&G<<^X0d<?8HdVCxgj0Z8j8}l92d5%Q81UKQ!)7BrB-2C>e*itPs^!D7yYRijcrXd
z@k9nUn+Z$D8&8{yJ;~bT0fUMV>Mwb4wah}i*t7j~-im#m*sMP58c<_MR+oTOv^oKc
zD)3@?*1xxxN)q|K^@QaTA2#m=5yr!1Xo=_rn&P_AmV_P(6(L8%f9Vw0alTsARfOT#
zBUO3LOJS=c)oIODrYr?33ss>tQCl_T3u`q|J2mGj&X$9bY$)ghm-A2b8!=Reu(Y15
z(cE8!g(0_=IwSR+I&V~jwYWp7(7LM2miFL!VG^t^mqR)vt=50JtuC!fRwNThB)1}v
z+)9UNy`1;Upi>r6de;GyGtDHYGjym~M<wf-gOn|1q!p?;6)bzQ$5`=esI^jFOav>}
zb`&l2QfnozHI^qf`CszFUvd*RU#sTR!N~4zDo^MZDHD8_u<PxsIKAEffP@TVu)kIZ
zuj5W+)TW(mc`VuPch!+Gx&)^0Acb`g%A_U7Nw^bSE;^4t`ta8bK4-OE!&H|$!{BPI
z-5c%qy4*mI)KyA)i0<*2*m;U|cIf4aoB|9U+}2vAvr5et8@DD^Dp`8@au&X$O3Kzz
z;T&S2!A_bx&7g)Fb7-MpC3P~8D)At~q>zpWf$+3E#iw1LsKu=?cj>gvu-fY<?v2q>
zL^QU0&FZlXhoY#ZEsCJl{P@4q+lYLMOz(+@VnY%+1Se29w{dH$F>R3xw$(8Fvc5);
zV@8Y-@feUG3zGC0ll&z>(ldnkw2tIwBMo<<z`UdvtQrJ1vY~C}R;2`QY{ixC=d(#b
zwZo=Lp29&hhQmwe{O(I9a6%qe&jYQOg^OzTn36`YaZZ=?f)5ff^Gu()DYC^@3`IAC
zmGIe}9B18ifrl)~_ctIjrT~F)A`CKT;(^3e1qxLki-*L>4S}imHy|{2M`9rP1C{_;
z{0D44dLkI67X(Iq%pVk{J$_%K?~ceg9TFov-e6<Uexb}NM)294R=;FR122Q^;?!fE
z)E90&HKO$0!?{~C?V7?O+Xgc2bvE<BlJF>q#TeUrjE)#0=rL-c&x!*_1J0?g*+^HJ
z{SQ;mgJ<2o7tCnE78}o)n48C{s<$xL^xaxBNf8WpEk0Qrk6R1fy%ryrE<K#e^0oEf
zk5@#oqA+=;p_98PW)<O1aBaiH7|toW=E|v?s?fn1*QGyookIG;)qXei%B+N~s27^e
zI_NOgZQb+^3FLQaTXS|7p5W(Pt%xBJ9Tk4@6@Edx2<@WOF8lii1G^cmmym-&!Q1{e
zq{6Q5t4eh)>fP__D~rG)N!-e{yUIC`x&?nx_m&fmrgS-zgimywNhqy^F1FP>Ip}N8
zwza+;NrqvK&=n!c9W{tl8VlAtbxxwtug~eI1E>)8Rx?W=!G&BPjhwi-VnFbpK9eNX
zyB{Y!MG~HYS(z_|8P_f`Iu013KN6tXPNB>ccQi~;!#@N))E(l^EDoKp%${6Z)LF;#
zJks`TOBU6(og1&#FJaA28ARfazY3<<;*_yqJEwA-bB{Q)803aDmW_q(@JseQtd9Tu
z1OMfw(%5u7;6SN*C$@&(<OwDDy@Mw;ZEaf7@L7oT2Mo65=nQDw`)h&?!OMRrF$IM_
zS;j4I@$?MppP4W3?#yy?F}J6i+|5t+wr)QG1?Xs<fchOnp$O(sExdk2FiFulhHpTP
zIVAks_3rJ!sU_CHQ!dXgRR1tY5l>hm)k5Df#ESt&R@v@*XdO5y1XZATV~zl6G8FBD
zfwI2b@R?=xLmHtrB5^0-Te75hq#|zM*)X6!LpvcRVj#_?M~HEhV+=|_^sP4nSu!P@
z%Ja~hF7HF%MuRoP^zF=k?hF1W(il=bulpi03?2*_#xV|dS{ec+ySHE-YzHgJ)m;EV
z;;GgvzzjS9HQZg268Y<a=q9KqQ_@}T*?rDl2aKr7FyTzQGYQ9S7Oq6)*R}t(Z?n)y
zPQ6u_45`ALhDQSlC#`gUFm@Lm2K~68&P&K_YVcp^=LTYn<w>};nlxM{#zc7n_Vr!p
zmo4O+Ej5!r9tbqLQ&5JQp$#d_;4%eE8miMyGdP|cV(B6U;E5P8<OPCP0YhS3OJZCb
z|Mv)SA;JzU0ZT!#Vow!z4;A_h0ae@|28}F@0n4z4de6N{M0!d}F6bHCcL%&2#{BOy
zz5cuzFcLL<=$VL-yR81XACWb4FHp>jSdy_P((J;Z?JjdSk^u#?);|>VLMQYphukF!
zv_F`-x?fX5ZmWnt!$>cgi9DaZ@F_TWkC?(PI4HFLfhb%=s&S@bgFHnso)&K!?_e6e
ztC;+1BmqqYU3~ZPm6zodOr)-03pbmrV8S9js<|&P0!qffEH(x@fK6S+*$5{<o-ENp
za`$Wl>*tM(AAD_<b|PwH3dP6#oLPC|M9Z$mzUcR}`K7}1&mX`^P(Wo?9a1<&`f`Jc
zZejf!TK}lMozXoxVA5q-WP5C=Jx%7Dq1)Iu*VXevA@mNmJrYHxNaapur(l{DMzofm
z8*z#bBwl}}MVLbVZyuO0bcK0r0!OJY-F=n(IBbeZtZv1vSHze|p_wgj&P6fI$IxR0
zDTZG@KUjL-6N57SD1x6p3|XK=%m*FBc{!O~CEnrplB2c;ouliodsCc`w-PN6t*tqG
zRNxKGhMLK~#|Q_a`o@kfd@gmYbdD$iK8l!|bnfbmb+ZkOt_KPK;(^uc^3%4<mU_mi
zDLrCv*h=-vgXyPRm!?m0lO4pogW*F<#+&uEgpa-kHuMYNKWF%SJ8)DsKNSwxD6Dl%
zq$$xwvW$fbydBCcunmdRami&{5GcJZa$U;G&sV9bHVSgRgz{LrRyjhCjU>D7_`Fu*
z)2Pp(MD$72?Y{wVd$Q19j%!ltdFtQbXVq7m<>>Jszf6BAo3U982%*dDP-Qgj+U858
z8=@+ek~Vgt$js~N{xR0b4R(4$NH&G8CH>TN(R1F+hn)ZVUZ-E$TuM@c{yhoH<*{Fi
zg%{441JXhj9aae$QAWB_SZ?O?3iPgbJSuH`+#B70&fb-L-6Ja&z?Li|jMop$<gwj`
zTW+x?`*n6@_aC5>tYnOHL{0!_##9s&bn2p0di%#$?MR=;h&KY!>H+8IzaE6^1)=`!
zAq|REy}aBkfl~OV8CrFxd%E*ON6V;t^Htq0bHUsFPTpDvW+SEB=Dut0EI)2`epNVj
zQWr7TQ3~aar^q`S{0Pk>D-s_jty;X5!s%;5&?Cc0Gr6OF9c7A(Wo8h6gK$EKw+Z~9
z{Yro?Aw&f+HPR3=JT+1UJbx~Q@ZrCVm;w>x)P&%>udSKi;zW-;oiQyU)CPWfs&t=G
zqc$LeJ!u95m$rV&9K_~p1!FL6T9`$8D3tO;<h=PoYb506I8auq7zc^eVokNqs=3st
z)TKtt$2Ja2aoy+kOJ#(5vZu1)>Ym{Xm&#UDX9V1`dwU!)ZPJpeBi<KgB~TLbv-lhu
z_boQwZr#;}$>c|MD)+KAlrfl@uO|D^Wno@SGzTVr+fIixo|o<1MX<_|g%)7L3yZ$#
znTS>M?6|{3cj|J-#jgFiO!0erXOL_rDlD>kw=z^#V8r|pos^KeINV|R7Y?}j7Y?|H
z4JGHB*r;y=KWS~eG|9Ae+SP269t$+M8UtZ|P~zi~n!zflUyxqT)bPN5ru+5G#f9{4
z^>F&|CSjN1U+68~++f=0GU{DdVj{*7L#Z)V3BzQrLDzF2?vy<cClH4qXr6Z19=km9
zKV#%O$YJ8%+)2BhBwDIm4iN^wqvcuHO<mgBpZC}6*MH}B2t&a{c@A8MD26j9t;t6Z
z&lD+n0>1nSG~hv#3PF$HQ-~oM-Lz0kD2@iM3R&A<_a4rRHQBxaJ23iy0H%Eq%>ECF
zepmGq7t(@H{yS>PNLY19XeW0fG`(QblHI5J?8IM$JS@?t%LY>I`%b1ne&6vz0&Hk>
zD`4h0fMg3Oy+uO+wAOQrOL?08W&yA`Ud+^OIge{I9tNjfbxykKoVP}HSQ`7p1W?dj
zbxrhFSKunWt;F#kT8PR%yRm(2AlA4*gFl2(sxZOTU<0ba29*JIO9WM7g)z_tbtdW8
z*b9+=)Rk})@y3zt<hxi2EKcdU>WnT50x~gc-VlXwFf_D>u*D5%^03Q2v9O#US^p;-
z2IKi}QVO;Ky!ytTi^Hwl0u+V4U&p-FoZ}=HWpGsAp&XQ<QCRRK-}WXMiRBh30g&q=
z^J=8Db5>R4P{OK=rHGMiXW(#Wbg5!q2-Z||CW<!-OFd8|ryc_}db<Xs-t9u*O`eFL
zF}lSW3QEW~wj^`eb!8XM8lLrN5R1Csf2RnwyRHuIbT(S+_}=v66jR1QwF|N!=?x<j
zlHQ0iAQ>1S`Yi2!uaE9^O9P4wcH0E&P=t4sh|-%>9RtJ}VHPZ{Io$x=?$-wJYLS*}
zf;qwI_%NVYBq+l<J}%oP9Cb^O@~~WIS{(OPeXi9I2I$W0Z-Q@$XaJvA3m%0Q4xF}R
zF*-}09R<qJp@mu%+-fdWNT-dIK?a(1hm|VIv;}$tNEvuKYF@{I-{khAJycX7Z5dTD
zbI3rI)9b>dsrb0{P=%e!|Ee>FKC5;b67>t8hD5><(NH<ml&N2zGh`YllA1C(iw--B
zPB@EBIEzlWif*vXYDzUw<1wTX?z|Gtyc#aansN=5^$fWN3$><P4r9bFV;rht8gdDT
zdI^Vm35R+KcY2*E02`7Chh*o<!iH?ZCENL8u@PS<Z#HAF&8uei8I_a#u2*B`<Jslu
z?ot)fkzE<oicl33?YCja?V~cVBdOxGn8{j#VnG?9Ixsm4@9)u6+eON?pxui&I?(yS
zYD@}_3xPDy{v<)qVqGf)QjD?$;1m>+h~gb?>X>R&VM=JMV|y-&7DVg7V0Qj6Wa`z=
z1zJOncL-$rQPCJNYmR8IFWJ^C<5#0X2UnvGrapDqo7O=C))*STl{IKQsD$}tJtkR(
zV(v}v3r_AU#W<l0EdKz9UHhmrCuQ-rANOaRkcNvLqCBX=Z(ds8{`6nq*X=C)0z%11
zVt<EX{|Ace_>PtD)hejeYMk@*8b!&Y>J519uf0Fn9o*gk+0hQ19kvrsOl3OXQ%K2z
zgpx8?R==vJ#@O@%#>Ts)e-W`e=NcVJeVr%|r-A3<OLIP7VpeAGqk3*^1XfC_+X*jW
zCtOzZc+1M{vSZb3WJLNCr@F4ur6cZ6KJB;`&f@B|<CS8fqo>uiJ!{X?rSdfho0(^&
zWkuEZTNkVYI*-r>O8sJ<pcINs@;9H&-;IrD_3IHjlEhAE2Q*16S1ecAOsaOnKu5FG
z^xlAuk&VXX0QH4;f8NrW)i&B^);eL}%Y;!+Tb(doE@P-ZkvTD>eJZRsa<&(V<k!sB
ziDm0FmR{p$8j<K}G;*%&<Gid_^18oTr#dxDN4VTgWIe@l{qyp3^l@G;zCp_6{(kj3
zMX!woqIf2&*B->3-@^t<d$)UHmrkAT(No3qUOgeGNwv@>6=U{c^rT^?L8$A*9h>OI
zAS{#XGvo8!p4OW*ykBV|;rnMG|IwKEus7jL>gw}<7r_&ij~1K*c-qaBYj1)u6o#{Z
zB#2x-3gYadWSK5;`*KohjYMv?^^*PiQJp##E*c$MNC+wEd!D}M?SU8MZARPyhX>o>
zaY%;)<aR+(QkD>iFky-630nta7zoO6Xz;bqQyiymw)g;t?JMv^g@8H7Vd!JBEK@R1
zO1o;Mb`Yg?B2%u_o<>n7$&$un!6=T9Ck~Ipm))NI_P%|J#;>4}gi%eF(FMbS;08&;
zkP@N0J3-^wUdY<(Oc<rEPWQ{-jG6LIBP8|?3ajhCTU}B6EQyfpgGks<JFI#36XdoW
zlhGuTG^Ui}vY_49A+yw>b9&9@$?P7K(O6B;oNts_e4{Sr$&Z@mn}-{;OLncuBK$`d
z*{C!{eq%^iM2R#FB@HS9`KX<V9W<kHX~hNR3vD1@^6NO}Jm-pWV%{|f{d^EwHvV5g
z9P&t4#M8W2JaJ(>k6fEkbtKe0hN1w(bPHTyKcstsDe_Q-2H!v{bu*>TSGZ8gDcU4T
zt!K<cfJ1kcx++~|drl>4d&$=~6f!O>bm|a~Z>shQ(aQ6CVn%q{ix2WEb1pVFt;j1c
zw~R1MDv38VF3rnK&QD2=&rC_pD={?6ERL_pOo=ZpNh~U1j3=nx6skTsKd&S+uQU|^
K<k2Kt0000Vm1C;_

literal 0
HcmV?d00001

diff --git a/default_5703964727569511570_0_17838.profraw b/default_5703964727569511570_0_17838.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..8e3b3ddfa01f4bb01c18174de032c9646ba132ce
GIT binary patch
literal 243616
zcmbT<c|6qL-#>m?Crc68Qj}tnvQ~raWTdRgS}DaKSwghfDh;wk+4scAl1e2@w#t+i
zOG3yJnrw+;D)GC%*Y`Soe&2Kbb8e@9dh6Eh{(hdv^K7p%lQ3TwFJJFd%RDUq_m|ZF
z{C<q^KmYMRzhwyhzh9$%RsHDy{!J-|<^TSbay5i6Idpkhk$Ga467s(l*8lk<@W10W
z+jTIxpY36Vtk2l1`tuZ9_xl3>=dW<Gmd=PC<}e%Yiz};>Q4|3F{}%t>KUwkre#vrC
z=(uN+nk-X7i}ax=vgp>J{r{~K`fLB|OW1i)vi&KChKK@iaxk3-5ixh(`z6I{T+dnY
z=hgSKPMA)gzoO9Z>R-QsBZcW0IBgod;}sI!RO^}j$9~<#K|8d3*rCL<r^~a|+<O8+
zJ(Y+KC*+(x(!8nKTqIlj=ZhRgm64bnL<h_(!0D|T**F~G_v`dy-np_|9(f9;Blyzl
zVe5$t>K!Gmo6EOky;MYW;Q1qSXR>bf5=9g^Gqz|s!_M>d5$0#c)~E9ZUe!<Ol=@wc
z>9{KO2`UX<&B#5yQCNNNF&1x3M|G1vi_pr!t81rJjWm|R<rFcU)ztwXenx1<c2x+u
z6eOgJ&Dfyj1JA>QamMk!&r&#nL&tQkoe2!H&X{QjP7bDXA#DdoPL^VaV(B_*Qz1Hg
zAff}$=h~+PGR@8Q+R&dC&K@&Q2^~ZSo<B~O8<HYl-IfLp3#Jp7Ti)Rk6<&CL+<Eq7
zo>p-EA+&z|_vQ{3>3{wHg<SRI*|eXVxL=9a^xn0;xb+lte^2K9OCAIcYCUj1@>XA;
zE{+Fr0Vfo3T(IMEvappZ70eAB9ZbhnV`yKj*_E5XVZn3)$|mj=)<;G=c}uXTTsg;A
zZ;jS3yZ>LW{?C7I*A|{Ot-4e?tgrTGb6K^t4&r);=W~}r(;3RgLZ$YF&O>IWpLr4x
z9q8J^(zl9uFM9331DmsPbpNNL%`Aux+^-Y;x=CBS7B&d)d(E86-Fvehab19W6^Kdj
z#8n=uK+947Ci#mkX^iGpL<g>?MuhiLC;OTkb6(Gi8mH5$;}M-zppgIhJ+9KDxvgM4
z_iG`={F=>lbS0t#*K;NKisPEjAD%r!$Js{M)?Pu~$GD(+?0*UsTj*4AM#^@aH22Ty
zp&-@+&!01KGJ6t=w%>7FmB*IkXYQhi=zx1CC~N&tZGMj*Te)0qJip_oVm>OO1LyPT
zx{XJj**m`Jchj_OtN(hEF`dbC8KO01N9@nOKVdr@Wp|K(>1-2QdiitYPC}l)!p5KG
z*@<+-eS;SS^FP0fXBl70*sT=bKaib9*{$m_i0H6Ej_o_P+YIua5#f7dgjYmfpK?S8
zKHqtI|5VjTSNw@8EDEQ5*ZfRHbl`ra8Jupe59zUsJyI+1xNi0h8PVZ@#&vexGs!j9
zD!XXUXV={ncZnb(I`DiRcQmpv@Zq+hUvqW1)G7Ua262Ce$2D{9O8$vcMPE8@&X&~}
zTg;YYI^W1A3VS5ewo)WZw|joJi15aArg+N52t0`i<OG3W+4NIFiii&UT;RcWc%A2H
zbR%EsDe-;zQ6i#<4xEp6z@WFI=t1UV5!REdsODAO2hq+!cwHED*<N0|=7s2qVb9Hs
z6Awma5FNPhG-ZYRhKDb*zImK(*R8E*UWw?y`>L(kA3Kv(PXjER8kbA@#*fet9eAA{
zup(qLzU}Y*bE0tkP}_H_KtyLVv@S$`QW(Ej=7%D#lE<TjGabw^`(^lMr2Hf66V0n}
zzGD&&g^K)`&c%;k488LB4ma;&I6PaGmfwmvE_nW2-f?2|^-amj&@OB7AI#69@t6+f
zUaAiB@a7hhX56f*$=xUBhz`8}XsP&Y71b0uBlIwYb=^qgPDMlq9+%Y2G@<5N=aYcG
z*b?*Vl=K-Zv~>YHhqM&7`l|HnN~;^LYDr`mlp{Lue0G<6#XjA8d!+$scYtzICU*{^
z1Fx@QPO+gYo%1_nTheuwRll=Q5FNN4<CV4rR_;tPHQh8ZDOuyEEusV0^TfcgLf-FE
z@sBi@>oEcZe<?%<&e>{}jrP&KE3eeFuFj&4uI?GMMC%tku6J8iIUDzO^wn`~U(Y?T
zEwmNUf%lCa&JtUM`2yKRG(H~fc|p+1L3H5z{DHu4Dm%|8{J7|AmrbAw{76A`;Cz~{
z6GL1Q>TBPgbe9XNIZU#}bXE<_tM1pU%>DiK*sVvh1EHdbjySX*`ZykU?LU^XlW?`+
z0LNbCe$;&6`_Il<M{dr3!jtS*I}aFMd3Ylbu^#yRl9!t``k9=)oS51yk?4AVPduUn
z=Nx%BZExhQz+-lkB6{_eK8MW_ot02N6H}XxKIZV)S}B-5U2QCL5!Hd~u`JoqWIVP?
zoM}~h!<&OmiyyHb*tyMr@$;_4nG(6{ic&qlo(8sBpsg?1QH$mqCY_gm+fj7<^Vf#G
zkKz#>c%SbQOsR@8$-gCX=*B#Ija-{Iq662XSb5_Bmr*Re-nS($E8N#w5z~1)IJ4b2
zk1p4i_KfaO9}zoaj+W0xsP9MC#5s`jXI<ky|INK2^zu_VW<6__gG-+G^#A?sUdrEc
zQ)DM@J~MY?DR+KU-u!X-;9ns_sXp9%3~ZNwpEhyZuR6UgXx+g}MyUC4L-|Z+miA8=
z%kdHUgI3$`IXA>a%o#p+a`QWVHBP*JanC#_-SA1Tcs-&6&qJelhTz>Tl6Rf!i`=vo
zITLaa9U?TYHuZPg<V#yQdmD(2PpYnbNx|&<TauohVjJ&9+URHhz2`#hZ4n(fpKZL(
zvDSXcW&W3kloyqIIHfS1=iXm)CVskg`>bUx+wS|5z(C9gt|xtDo67A6!OP%vzj8ze
zUhmiKC0n?2NRz<v#&p(OoIN0OWb+Z=C}KK`^wgz{dy4+SXM_7=3|CIhn4#?(@VKZ=
zmRuJJyU5*+23v!Ld;7{UolBwC9}MGXL!MeCH0jUJ4|`)e0W+)E*q+L4SQl#Y>e&I0
z2a1@Eh+OgoUZI9<=IO?d-rk5Uo-sws2cAErm*loNe|RdTBJ*5AIVtK_C87i8EV8!c
z<F&!P?aV^UQC;uVy8<ztN6YH|f@?CyjPL&~5^`OwPr`Kmq=<DJ2wBG*;rQscXVGCN
z^8i{t@VKb?&3iv@jW%l&+;W_w-(|iM(@D8)=B8wMzh-IVmi5t3dXs^e&Nf4}#MXeN
z=aWvkFC~J@9+40ocz?FO73UOTT<;MjxI9tW|DZ$^(Sh?hJ@WpKGE2m*j(pcZAL)xm
z-TTpUhMx=ctiRqG%insSBEmURC!tz}hUmcc%=c8t9MRnPwewUG^9z>%m4fKN^?X^I
zY<cyZPS!%u@Vwdj90d}h1J`qrH|@)CW&Hl0lWogu7CoObP0;dz@8L^p&NwZXa7bCm
z5jXn0+$zkES&y@tv5DC5Oq*CNw{}gQe|IZlJ@E5Isjcu(d&HN}bTbE|FTHt#G(-o^
z=Tyhg;S=+MpH>?kl9(RLm8W1j&ri;jakCHEl-m3`t9AK1FA>vOTwF3aP;>d>O8<)$
z1BWkpG4`SL3*J{p{cio`j?MAOmc1Jkoc?ZAIi|yvzVQ0S19}b1+cWOD^QI+%hz^|d
z{s#Lqc9-@(VTrnTgy3QuPr`Ki8;tL<O7KTDeiXY)U?1AfG)Bt@t|$BZa$?8C&horx
zyDx<lek!X(bl{xBV$Lw-HBP+wKn{3yxNrDpD53+`Bh?UdGGfZZr^)fEw*QJlKXfpi
zt0TMCa>r19TffK*l^Kip%7W;?`!ii}M6IU%xSQJC7J5#N)U!b{Ue40N2lA|)7WO(8
z)js@Y{97~!(ScuYIZj>f>=EPUCZ$H-W`677PC<0woJpO&>rQ5D&x)B=Kdbib#%o(d
z2Y#J@eO$%(Vg1t<r~f$X+{@El(m{0KdSdPu675Gq)l=psJpG$>V^|O!`1LU}g*|Gg
z-3`B(9#TlKwsljQF~aMYev#@mL*EZ6ytV5EDAUSo$`Kv-c`!$-Jh$T!&%&rkt^3oc
zcB4u}2hJya>&}GWHG>q{v4?y7&3t<T5gj<6squsa=AL7Mq6%)`P5q6JQV<=u9xJ)9
zmC+&sTW8O?UVHH;^#~Esf#<VJdzWw!hoZJZi?-JVNBt@(L<g>C<;06w^$%YS$^-Sg
zgo9^l2KVCiJ@3m2@rlN&FI&wWO26MdESZDpbap>12<HCMx=FvA-QTRW$O+T2>ppg0
z+wGFAUi5VX_C76hDNM&S|9WTD_TXn;iOMc9q|0H0hIskB@3_~L+^X_s@1uicYr6*@
zb1)q}@$YNy?+b{QjNG7jfLUAOgy_Kc!#iaXZ~X-Y>@QoaJr?zBRzwlef#;8Zkc4ls
z&%-J<=Qzi;{YvaJ259-f`=P6-l1WntGwqnMH{akMgZ^$r2R=_L6M2J1jDK6d&d67~
zte&i!gXqBbLrKf_aWj5R)=KU8&h2(p6M={hoR9d216S@xv^za+j#au{zwZ(W(Sg_d
zL9Of5%wa-P5naITNE%CnBBBG=Q@2WOfX!)dyiD8IZES8wWoGoz`UTIQ$5l)BhV!mP
z+`d6$fB$U#+ImC>?w9VNQ|oV<7rp6>+B$!J$B#`^L<b(1#-keXG82{fo72xZKYjC+
zBqKWTxB_JE{D|9df}M})(r>y;YK<tO1J`r7=!)g%iLByh?dJ;KzdI$_t%sH~-1k3E
zCGw@+%nl4sFC2FFO<8P3bl`dh<HQI{8~j2potKZQEp(#9V>%~&mY@B-ezfPOk=crw
z3i(2FL<hbfdJQj4?vmtf`?Kdf7w^=OK}AI8e~l}X`IcF7uypOn-~aligU6N`U9_Cx
z{l_Q2ojxv|XQ0504tkj2uGNj`!1cIT+>-abODxgcLCan7xm+~`(Sh@^D$vgn-Rw2x
zvGtnKomM@8Ktu<w=hw}fO4qE{b^?cl=}b{QpA>VYZGZd1iF)3txP+;LmNQ(>1;<y6
zAep0Oz^TM^)?SFakf<W=6yo<Nb)lAjeITZ@IQ&{|%TMtM;E*t#_3MU|11e(9m`D#B
z-YWa{n5m7I&n<hu@z=}pmB6XQbXet@Jb6m)UI9)ZrlT&qojBG#SOgprrZZMqIPkvv
z$!Xv)wea#Gmt0lWe8BGooJve5#C$1QCDuP5IDwc>z|S9U<-eM*1BZm^Odecp&{||}
z1`bmbFQ3CHW$S*c&%XjrC8jgie=qVjUxNp50x_MXoW%_voNiKqL&9{%epr|A#Eh&2
z4s#D)KAfVXsWvkt4d7H_I^U9O!f*I?$O0!2)6tAl8m#{=VhkJ-rn6exX7g{;SQ2oU
z8hH6g7!xlJ`Tp4koJve*^h8&7LWqzEZ~`%%D3!WTNA?bk0EdL>R9e<;FVK0-4IHLA
zUOtjv6eU%<v;VXIU^*XFDC(2Xlg@&A0x=!^(uvMO$@~J~kT9JphM_01*g^?7Of|fG
zLhe<ZF;tEG2%JhxXRXv2Pw>Xiw}2Cf>F8_<FFGf!5)B*@rt|!+srUUWFKU3pB;n<=
zJIiZQ-D>Y!;8bEd_7NQvXZE%)zzM{3#D$M5i?+ph1BZm^Xg10&d=8251rBpJUOuXq
zZ(m}{RyY8s64P;>9TpC|7NH27Kul-E&cyN0<;-N@kT4zD`$600{0^N14s#b?K1vn6
zI!9tTOn_5~=?JpE<rKM|Um#$=*JmMh#i>9{XIZ(l-R+XjBjAuQ9nq8X&uW^KolWz8
zI{jpsyvp2(m(Q_0*3?ah>$!nbiRpx|PpWk<3D~1~t>Dp$strDYn9eKWkY;*p@;=~@
zFr5;OP=^Zyn@2TSZTq`;zv(ko@$xaa+VN;Ndj>0TDlwg-Y@Z`i9ag+2vfnIjt&(#L
zM0DWSe-`HU?H38|wNFaOm)PN`!J~uejQp);Pj%by=*IAUyX#67s|bh={CxT(Td4F?
zWXC>^yqug;fnN-|3R=$a^ShirWy@^ei`z>ZCe%BRX8fQbI&eKk?csk`4(IOPqs$)i
z^x)}G3Z`>VOLmFwAtVa=MMQMqe$~w96mD3fBLez0ql}gh?8JR28@rSC^$X}%C87i8
zW8Jo!D`0nuE66zz(<$6I{P;+Qg(b+Dgy{&K@>NK&KE4*@%v8e5M=j~oj>dDnqaf#c
zOs9xkA5aliRts{bB06x+Lf1v>_->1af}F{ij_>*9sNoWwn;>TbrX%vps_JI(lUa~6
zT@f#5agnuC*|Kv+Am?~Y=b%OYhGTb+MS`4d5gj;Zj#a8wMJpcAK+d9=j{TVQ@b2wx
z@*wAK1+;wNdS+9<4*#^e(*kl%L3H5t{@YFYj>}e;3XroCrt|UTbjMAzce)^FBBBG2
zYu~;liHC*0tsrN{4!nHS8w3~xNl6coGY!*u8-Fq(e1F7EkTV6*fph+xS$z3Do$ETt
zSrOBDe*SX!g~jQ^AZO-wynM!ruK(9<gZ37jr<I5fe4d_l{$_abE2#nWD+SSk`+mQu
z*yerZw{g%fTTEwhiREK9$#MepOBB(8`^CK_kVxH`KM(pfD36vi?BoXzyp896E&}>R
zLv-ML9?P`9Q^-s^0QyBibl`rS66if?)w=H^=ocB$f$MqK*BI;a*GUufi-76yzB4=`
zuWy?I`bFP{mvir11Kp_beQ!a(;xV06pZS4vl6RXxzibg5IG>ikrt9_G|LB99MKPUU
z7mAE^Zd_rXlD|T(Ih}f?TMjRum;1e6vT`PbfPUp5I`Fs*leFxaQLmanznl;qcwLBJ
z{oFrx&1)L;i-_s8+#l{qdK4B8`Zco^EgyJXwhMI1Xs&kw=vO(WV`uunv-9Z6HjuM7
zrn8an`@JtVaV#KbMMMYA`J;jKo#3*^k3r5%B3eGM!{yBRgxu^S!D;sFklRzmgnCSe
zXC3RNLJO+{pkGu(2kw{T=tI64jrpHoKO`eM@P3%lmrsi@-{A)Soh~Ax1LtG96yUCB
zH2Uw}G9!zYGdwOG?_9sb={`Te{3*wDgui54Ec|SGRdB49#k1^@w>P2#k84}NEX#x2
z{bpbuk}w?^x#82*4?YBgdB}q4)LfH)=YIOsCom7`GH5x&<Fc1MY;#IeXg!#R@rVxG
zue%kpvCa1vnPA^A$8@+d$4B+bNoL^v0Q`s!JTCroGv+&zuS<gY)4c^PA9!4n19Txi
z?*2Vs{-hu}a6O;$b8@W{)&9~pv(_@g&F(uPI&eJ$ISGtfU4<=*OR91Wqtd&jFr7^&
z%WSn|7t6tX9^8zU4?HeA(vX4pj@egWKGQIr*&5Y9T@h+m!94Uvbl`l>pGg#Mv`vr!
z`=KJD1Mi1xm)?#F7}}i$^O+yff$K5RHXFJd9Jd+F!&YguoM9&*T<ONkobejIi-Hro
zGn_WZV>&UijX$H_*Cm0zn<F}K-%VMq7S!gsnV|2Yn2z3AHYLAxc{jm6Hn<5bAGn?x
zwbm^AuQyu2{GlN_aLy)~X<MhGzGi}Rkb>yI^@K`(8c+IMXaeSsBBBG=BPDxhNGE@<
z8o!Xof%tak7c(2t@_`+X9*52KAIq;59KU7T$!W}Aj_GjirC5HhZc_*MaBoBh&gWg)
z2ZlfxhY?s8Bt!=u*S4M#cl+91B?p8ThGl{XYD_7#eBk$0y6Gm34t>zG0Q)>0(SgTx
z&{IxVEu{4Y*yrOB9e7-!1DbOYlPtf%K5vfc@bRYx69-Cl2EB~yRV=ps<i~Y3xyQYB
zD|!R=jaEstoZ);NZsc(UYuNk*`$h_;vxd&LYlXVADp>DMhz^`{t3kVw)&s?6uui2g
zox>OO^j<6Mw+HiiaKrL{|AIbl|G&P3>j^2%e6joVJw-4Na}XUk=jYBjT#b)Y)`Nag
zFrAA<*P3&e3zI>=6fvFByKC3_CmkCD{bH`i%g1gZ=Lm6H><;KxC8l#by|A@9H%tZe
zD-hEeKKoogj8nNC<V-?z;C`jooccCCQ5FkwX2EnKW?Fwc7&5kjoaqvHIgdX$9KT}s
z-)xXG71Jp>8J@};ne}g<Cu2HX_i8sLbf1s~>w<vjz&Y<{C|Z~q)a?iTYF&qx5A6I5
z%Pvnb{p14rm4fM5Dc*I~Q`xow+<%-fo#KY9Ew(XZ7eL>Mhz`8}1RZ%*WS;kY6x@Fp
z;&}OJDCSPQ@c(E9=1)1I1J~2l)OgiamO=yfA8$-Yy~luM&x+5x8{co=b*s8BS`pKE
z(801v*vRk`*f(ax(DH%DRp6>{!}62pQ!t;)5gm9QR>q(A?`89j0`oZ#)A5$tE|Yw9
zS`^G@9ZW}Qm&}pY#~Yr4c}PHX;CxosxZP3Lul)Bq5?vH8=lEl`6SwrcvOvG6n2w~p
z?W2;B))LS!GNJ?b>(~0WgER4hBcNaWm=5j7QvDQlvoPpaw+LE3a6KO^?W7|T_)I{*
zau6N3U$6IbOa@nt7J>Edgy~e)-&4Dn)+hk_C57qud8rn<tqe5){TdX;%cnF+{XH>P
z>gJ_{c*|AwEAwcWPEB^<!^hLVdAr|zP`oC_G3AZv*cczZYa~igrYukH`R)~PmW1ip
zQds!ca~eg1dRQ=>K9(Z+$Pd1epdR{Kyqr&#PpESm@jU|d#A7-fC)`yM?`+xu>aoRi
zRQLElC6XlF;)+}>S!CVkq!1l=U3m69TgrIzcN1_1h0yYWojpxT9}1M|tiZ{^bl9t_
zjRZPE9s|b-)8W<{|E$)e!3i8GOvkY%P*8wlp#wOBf_VA3EB`I`BVXzQP7bD{+Ay|3
z|Kth^aGWrm%3Y};Z?+1~0!IqdIrD|L)%{083vdS4;N??N<od*8&DJ^K<X}3w!gr<H
z6gAj@<AmvWF)Ph<!@lwXM+(#V%(*7w)349Qz!?<4%V*E`0zoeJY6IZpU^@3^M0{T@
zXlnw;3DYTL_YG>(5LU`(bNf4W$@{Mqro(#6)ze)grpZk$V2OX5jME@LUOru_*=O&|
zX=DK>2h%BYZqKW}xw`y;&MB!~=lzYHFrBZ8KlSX%ApyXV!gN>#n|_k^R?30Tdk(I~
z%O|2i`s|B(mOa49!E^+et^IpP9P+{EJ)JO}N9!LPwtM<<5;#(rjzi}9iev&i%h@-V
zdBo>dWel#u%jW>^{Qi$uztez|gXz3=VR~`Z*t^AXYLsf{`y6&cbl}%}zwdu17q>Wg
z-(%+i2lDEKCPhRCzCTyp4WAd8a)<>ElMgK)*iq0IEpPq3)dV>8m`*^Wx@P(g4qo6;
zF&(?uO!vXxAFct%9Mh>jYQ+A`{@4I;L@^zSHC5#CgVc854D#aT{5@&RuT<@*H*jc}
zP6^MkqR>31KXAM;oiFc&8JEgCxPe2$bcmE*N&6}KbKtOGI!*E8`nr$OwShzD!OMAK
z@p701<*7Pw;xQe~RGy^|*G*mk#}?C3+bFqZSkz+`aHKGu=ZZoZ)cAX8z+rIX<&zaU
z>gQ1VQW`krm`>9t`nIB+Z^OU|#B|O?CZ5VaK9B)Ex21#Vz|Sd?*Yy|_^B6bauwXjD
zJnK$I4(|K+x!U@bXgS06SUoU{_S|#T5Y!Wj>4c@(Yd5WasSF$)Oh?7J%VAmkA{%g6
zFr6#sZMNK;?>qpUdIDZPMGH(H8J=CAffI`9xUbK$TX(3*1~@vH4uNb+nOpJm-@jAA
zg6XUkxc*D(xOF<Hr=ANhpSS)K0d%dlT;POaI%^c%PRUvRx&s^?Oy}9y{<u$@b2b5o
z1=I0<yt1uOw0jOX^_+P5_;o+w?-4p}2Aoh#XKDkB*9aq69ymIfj_|0P-cuc$fBP5<
zrZYPwT(;mOV+-o3=fKN{+)x<Ae)-|Q&#{JLIwJ;Y&8NdZ3V_dz>R>v`eYa9Klad?G
zAEy3VFx+0tg6W(aIcuQXey(T8)9jsLWM^|dJ6=9opBzc2uewSAClu3ZjA>3<V?BD3
zWiCt0rQ;lz4yGd};HS7oT0aPU9+m~u(GKt~kUP8PAaLs0@bZZbeb}wu<$D->9yS!y
z`9!A(zYEhY2aXP=6ZQJ^9``Qom2zJncwXwtpJl;xvQJH3EzdPM3!HjZynIZzcU125
zsQbC*j?YoyZo;-uOh>Zx;NmU)UT)y%U^>P-6O1=1wDuK~9t`SEyw+vGbSemCgM3+B
z+ksQR0xzHb9qS(bvh!aO`xraDJ<H>5D5g`@v2@h2DW3rx9ZaX#E%mRTpox($hfPnp
zoR2RHq60rK3x=Lhec(@;q;he#C;ISSr?a5t13Q%TWsQ=3kGOynkLlDLXDc{xht(B0
zwwMn87~6%hE_E;9NMSk$Egs%UH`tI09LDm}e+Trx-hc%C0i4gys)^W(8dgETDaUj)
zFMOz2m69C`oIp&+cjUyv&mCe#z|p~UuJpDPt!J&!01g4u8CrBb_^iuA5jd?&csZY4
z8JeEFVe2p8q+mK*CTdRKGb%I&juWQC{pGntcane<aEO@Bw9;*f`{yzQfHU(KFQ1p|
z_b^se9ZUdDC8m?o`dm4&LC_vJp_tD3byb<Q`ft|)hm7eYwePF8e!pN19DYn^L-@n(
zm*ksSfYZH*mveYj$v4KfU9-T+!F28?KWuJn-6aVe3Z^qy_N~|1$|WB-ikQyNEQQ_5
zDVP4uXXYQgd`PrK?<R4H2~bZxrsJ|rj5a12L<bHP)49qP!riJPx)M0%n9f-Bj~Ka?
z(=_0SVmi;$Pe`5B@+Sai@Hbx0F*}DWzIDdzJF|7jY{qkzordVZuk)|iDtRiMp!Ezm
zftb$k5i1!RM(8QvkTIR_^_RQYTduwUjwq%xbcOVpf7yc$9L6uSoZ)<u6EybMSu11%
zrxMc%c%8mQ!;(=394e-BQ{c(_*Iuc8z_G=267`wg?BUj$z#(EfUJLp64LKjJ1rC#m
zm$S9Q&x#VR00MC6n9kjri9bDhOL4$S!E}VzD;i{O_KX1z1=Cr3`%L=S>DPOJL&9`Q
zlgg>zqmI4-4guF$oH})gzoH*F-3xgAs{f?A^-p5$Y2eT>9p6RCO*dway#r1lro%6)
zcF_J7k1cS>n9iZnu5qh&{Wjo;Vmf{wqz(-yTvq}PV;(Q(qo3j|VkI5_&BIDeXYYkK
zYe^43l0ZFFOs7O3+L%LT)ji<YVmeMccAgyZ>Ky|P5z{#-)R#zHcvc7;=1;twdA0`W
zC0+Ei0S+D0`BOB%Pr`QLl4VBopdC$|Ed|kmpDR^p=9AH0L?xL&>B{^Mm1UhUo#LW3
zxk5*FHwBzxc~lkgsEUZ`v<{j^nDn}daXHRNoY}~=X66T4&hYn}2EJ=qlL&>+Wn4Xs
zLo*N0mSZ}_d@9LDu9BXfx-Fx4NXt;)8`Ft=aO2gO#fe+AqYIXfX;<A9F`d$jpUytM
zrZ8C}cs}fQ_65J0IkbG>&(+SFRkU^S^8I)(9P`FCT{f~6(`nujze?bb&i$rp?F@aR
zsjuaT4t)RF6QxVE^l<qhZ~2t8>(>2?p@<GVpF25bUG($x^a>w5;TgykzC}iK;Q14p
z%WBP{yd%MUU|M$H>orCMOy{q8%_^;>Ij6#_{Er)59WKyk(fS4d+<}B$Iw^MhZRa0*
zdh0xLj2A0Mbl|>c?=pNn@?&IfFebBvQ^H6p9?^mG@$l2?d~lG-IJKHIpb#s$(Hzs!
z4VwCDnk09SwtPlSO4slZKcWNw9F|uzoBz(`6kF`ed6B7C&GLZp9W7^g{>=Fea-4mV
zelOpBecBH72WQF=9e6%>+ZGge?JDp3n3XR#9~tWvis`Vv+I>l+vu2O=b=q9}mG?U4
zhz>liLNkqeWf9TL{xC~*y-glNqKFPWf1D^Q2<CUqI+T_jH_so88)nYn<$SeHlWKS_
z&-W3vt>H?_uUqwq4m=MFdaRT0FT{V`S(2k4BNEXUis?+1xOJv}WEtf&-+J`hoa-SS
zOh;wyvynB<U1eMa_Kpsh=NwoN9eBOVx<{}tM0h?0=OE)7TF!7jyEt|jzWTkT6r6)J
zOy_I8caOfKiV-*mDVUDYn2k`|QOap>4iYgP>$6E#qUT0~!8yp7#>;2(1xj&+Zu-q)
z%`3MGl>?V(m`=)vT+76}8*;{nzfHdoC9J0)I`BHpJRN!{UE6>8{^#^9Cdn1Q6)~Ou
zM?Yh3cS<{KJVZ7B9WcSkoI=Y7{`q>ZVifr^6<Q6=Uu-xT!`N=bf>@6*^!*GOwKX5l
zR3uzwWY{L`D7gL-H6M7N@8@WJr#REIb7{G{FE#P<j1FQwJWxG*0tW@+EjJR&^cmkC
z3P{bGBRcTU`{VvP(rQ+IcZ`RBSDoccZC=!R;Jy>|E^?ET#WwR*{Ek@vd_a(ZSP#5E
zZz^%u;4<P%ZMqZGP#t;t7z45Ia6N(CDMwEU{aD%VUDBW;HF&2S(Gh@huH9(rCvNS=
z7qKSuV|18o`wXH3pQiyjT?qjn>fgT$Oh5AC@A|Fvhz>k12d$%&*X!0^v3FTBDH)i)
ziHhi~hQ>7^(y=cvXO)ARhVoXk(=N7^hz`6zYd$l6+h;W{dDq+X#gA(H$AO3r-1pEe
zd~@0JEVmtBuC_T9Y1?Lt=)m*&@-x#$XZ2nC<#+6O$nF$jNk(+wbvoK*b2585t^dlU
zc(vzt`DRjx4tx&kRmPq*C`y<bXwwgy4Vl<Uz;rx#H!7#4NPkN=otisnmYg^<iMAiY
z^YFS6<33Ln(>ZIvKibaDvZWr;Sq06XlY=!yU)Sv2(K8>W|JSrlnStoQIUnedu(n$@
z`fS78^|XAS0Up$P;CYxnld6;~e<hxt*2+Q1G(8)NSP#6uE}uF!>Z#`5JGs)%%Uihn
zE*aAiNUnO+QzoSBJ<PSP-Qk-mKcWMV>!@zQnntbnS9|F4-ecOw+*>Em`VKog`<5AP
zxBWkAnF}9CQg>C4M|9wRot8NJz>cN7_dx$+Q>D*etSN{N{PX@=T3GE)b`=TQirMc}
z5|@1Agy_KQ-6>_T*tO!6kAmmJU9vGfL*|GMJgz7AO&Uxr^V7d+XBa6Bv%VlAI`H~(
z=2hQblH*1&{+#}+L9JbbIgZvZcpkRh>@#*w<NO+wRPp&RUyXM?q67at`gt?u7OTxw
zfnKs=(Gj9YZMqR1c>Y9bW;X8=_3$gVE0R2S<zPb!rqe&kS=wxxczSEy#;X>RY)@?w
z9k^dz2VdQ$4mW5Azu#=sTQ<5@5z&F~QM`)Y@*E#q=Di17#Y&Vfm+2rnaNlheq&5-@
z6<DTt;#TH&<&E%TI<B$u-eE^P?+#5A+GV5~qz-<?n?HK5`PLPDJEn1hS}A4_;HgAI
zbl~;%(pCJL#uwjRrx$#D_*C<WDToey4qnZ5zvy+8lbJ{=jq2}Sy%>t<z~@e4!NFrr
z<sLT%hYn=$tbCD&I<BqI`K5CHn|W|&Y6`EX(}hLz-UBqme!=&sMU8@0$)Ul;Q@ke{
z#@8lsqOLFa{<C6-TU||reYkJE8AC7rs(mG5Ju9Jc^{;yJF}-={hqzyf*Yw`CzNiko
z-fPMu52cxU>H{Ybu^!l2n|AB~X|=CEa7dVrhbHB1cHJ*U;4l&A4_r@s<kb7SYYv|R
zP9>&uOm=%lSNo&Y;Xfun?Yk*=IS|tkI+kfo(kYd3d9&YPVX=9Pgy}50L^pO#XAq@5
z)vMPI3Or{r(Dn^@KXe~1ENY-Qi4VynzW;Iij~M~69{Bvawk7oWcZE#H;*}Tbv_v$&
zv?A66_scuzsQq-Czb<>xx0eMXU*E?gI&eKnN(pSoMxV~Orm-4WO<a+*#dPe&&iVc9
zt{K+3Rh)fgU$LhYq64277ay8#Tygs&|NZno2k1f8;WJ;*`UU6XvAxv!%ub8Eg-Bn=
zn3Ad&<%kZPkJZ{-3)gjndc2`Vk+g?f69W+)xSmW`L*~X;LjIbU`8yK4IHXC44qVTt
zwwE8J?0nywi|pd%i_=(QL3H5rYtHSGg5LBc-jGfFReQ+X$7aUxa(>&%`&U7r?9H1|
zou$h^T$;)e9rzq%3t8`;RVgc@wW%Zi;<8gf3Zet&JP~tbM-s~o&(dQd6^=Q}!?uVH
zeC~*aG^srni#Fr=d+rc@R6dx5=)m<nOFN?UcdTd2kK*5TZ5?78nWK0)cieS8CHEzy
zOH8e6b**pXzDi8zulC<R8qAFawdRwj@-zeX1!6kSi<*wwENM9KcPsVYAjqYVFr5_Q
zslTn0Tyu79e5@B&9`$98pydOvi*+sSsR?7I3DtL9CFb`=#ML7@aK9REh#ipVG~CU_
zeL`DAad1m0q662%#XaG7^svAnsh0cx(Pss{WJCw9C#~ULqp@kTkLYR%oxq-lhY6TY
z^l((m?y}moB9HyL4Eu|_=%3MYhU@8CaGqs1dOQ){a(4Bzbyf9LOvfZKL}km@o`N^e
z64^&rdq$EG9r$@!k8)8nc7vS0+~rjTrwoHX>L5DsxK!D64-AiJx1LX_<iFzor-cR4
zf%_i3tMjaNRLbajNmJhoTC5%PVZ5A=na`*Zo(`N`d6+(UX-!`^714pu(~Yca7Zg|q
z_K9t{_x+9CYbRSo2hJzv{!Vw{D+J%jDe06OIeL3U5goXmu*b4Teh|)-WHQXwH1=w;
zGltOefuD0DPCov^BwRT5G>yKx>v39iJ)#4T>#%DSlUC&(E?yTHH=68a5sK-I-d<Ka
z^KRIxOJi?B?o+}0I+%`2!}>5@ho7?B5<ZGFo9_R@g6RYw=u5sJKRT|@vei-h@v8Xx
zLA0FVeC7;XlS(vX@0D&j{4^tx_&pTSf!D<grNt{!*`Kw>4MPRk?nal8F&*(Hi2*wn
z*Y|YiGkXi)-Sy%}bl`FM$Uo>~EQwq4^mRu?I{7BH4&dbz6vmQfsO#Ed$fKiwXkei;
z9?^l<h3nAX$6e>*{ON`gbUT?@RwqnnV%bFG!q{)`%A;+96=j!%6%idcAG-Y;0d0xq
zopjMg!OUa(>t{aU<rA>#S6zvF>7Dqu-LKcS5LT2UI`I4%{`pWy-zFp(IDwds5OZhL
zrL867z|p~U#EwvU?GFun0uBMw@yrl;k=ZXR2%Oe_w4C9540>g}|Nfru08R>~V{&fy
zt)yEkWr5>_>FhBZOo$6fI076Zrn4`$ps%HK_Y`nu`tb7UOJuXST)yf!a4In!shNmd
zCjt*Y0!}EVld;jFcNe*N1UO_&hqrjev#o|<cY(u?>2!U0>woMD%WL3t_u}R3?Q>gi
zyQe`4aB?u6pi;k>{*BegfJ4D_)GrG~s~Dcl0*)f4v$JdPm~;H!X5cVC;^iaQIhB~#
zI6DWNdQ3;JSMbVtqJtrDsF=>A-PXYu^`w8}GRJguDs#%#Yk8W1dPFfD52+2uGF>#a
zfHT;Gm-F@z|6U&3WF6qpFr5fL)`S&1dXE1(JNKct_FBI;q643&;nDe@{Kkzrfuo4&
zJmu3{?b5IA4V;;7w0z)t!c2sBS?<vszqX~b(f@w+t#V9<;+2t{e=p+duaPHuf(rKB
z-iQu-em%O)2&M=y{{n}E=|t^{n6%7kD>q>n_v=opJYqp~;QQDlSG;9F3!nb1m#}M%
zY-Ma~7hcY4>UDF3;!FI%iN|ziJ{;mUNM5yd{LoMG*t(Ggb4*7utakU-KQE2}hab}^
zd=p&D+S4HHFDUTFgj2Vr^#fi$$Iohr(=QF=fqum!I`I7IzTH$hQt;;kaBMLh-oVI9
zOXt?uf_$V99e921A{KEKD1Xxh&R{2AJ_Gvh^^d7Bo7}5~^Zsf~s^(xih5e;|m3yyf
z+f9n-)mQ%4zw3zU7#c61zD(Sb6C7zG7;v#+j})RK4t+mPzNGu<0@t>T;i1jLT3eh<
zX^0NochfDJ%?e`e9<E949!fR|JG~K|HBdbdk4IhV<Jx^x&fxU>1nT&kN<;_VHw-za
zcK$ZMb_Dc`is-C^>XA^EkC8R38~jCzaCu@~n=gtu4_zRqbj*!o-LnrLQh9@u8$(KB
zSP;)0MaW6t@Ha`-{^usj>F{W$gVY-&#Pc0~-|4EK3pNep=WoT+>QtOnIHz?G9r$&>
zlLj8k;xjkv?`^CLcXNHik6I7>eZ4p9cI8HT9<eCwa=7j$u`iyCSP%UDf-D+$a+u=*
zIiH&cjVpGIOA#@hk1vPkrZQKmpHqBdd2ILSC;`!dUmr_$o0wl;Ew{9WG}pwvV%i(^
z9tH1X=OzPU&X`|}UAmY0g0JAsXb$51f#097PO3paD`3hrpX08#o|gS;I-&!Q%cxFH
zIREXJPvsd;cvsDzQ$Vc;b{c2*RBYxWC=U(EdfuIQsuze@5Bz;Jkz-lz@*i%l?C;#S
zxsbOpfr9A3>tajGz6YL8&z<^T@6HlG@ck+3Jrn*u+KstmCuw^%PNoix6tM3OUT=$7
z5A2BTvf5TTU3n0^-%kh8f#**i^>0W@!*zqHWtj@|8ulU<Oox*_m^CQ9aV|_OfAy8)
z-?!8w-s|9c7W@3>#okv}yfe2vm`r$~7>eoSN<JED`yBg;L|;-Rx^1KAU^*S&jNeyo
z`I^$ck+^6`x$A;@Uxmk&UU)nBq^U}<JJVKG?su_cJ?6bmtKQtUn^yGbM9CQcmOrB3
zLouDxRmPIJI{O^{xCZx^-Eh{^!E|0z^B><$+4-P;XR$)JdS5OJrsLNTG@kV)=xY}1
zRTY}yNJBm1c?#b*hD2CH__itR$Vu1R6zykHL`8JqeyvdTd^}j1U-4|afK2AZdQCE-
z1J~oFSJ;$l!?X@7^yS(dA!Egl=)m>dmG5|ey)Mn-+_}zgxk80Pt%&y)*ja5yc}1BE
z8hb@_|9SE+cUU~8^Dx#Wx%OjRq4rzx$+b?#4d#drd><p1YP)eS2x{JI*Ql&e+L48N
zUxjlX4RwCe?>4p)IE?pb_j%aaeZTeI3w~xvTv^d5jXCwE9MOSu=I)yoY6;HL0**JP
z(|nS3wV&RhY{&MTdw;0oe-$yEXG&I5Im*Ve%&J`Jb7ECDXFAaGfyWiQ`P1FAxA&!A
zV(Brxyi+--9Mhpi>4ygen6Py_8f*;~?(Or&bQ(h%c7;>~uX<{g(4;><Kdgx9nC&W@
zyi0YdQjvKsp_~-;Yo;A7A9z0Zulr_km6zS+lj03uRi&QVdQ9i*;mZ*twi-4S5zdi1
z3Dqj`n9jk=0hf0lj%r^B8lE>>pQGS}=)ip+wppy3i^~YGkRxvNdAU_s3e&m5e$VHu
z^X$fSGY6wDy?KL!ZD={e^>Eud%Z|rJI5d6~yGvjn+Ma{y2=eO<4o5~us?BYo=hR3&
zbHa2aZMX8gepi=FN{znF{MNxOh3T+=9B?=^vB+}zkF(CbJl&<iR=j*xyiMn$@fQ@D
z9#TlKwslj=L3H5fCe?R5kAtaaIydQev-_L17KI`@aKF?ymWGd}o{!OszHY$Yr)92#
z=}bMZ`Zm#VaB~q|!0kvHO9Kn0ll1Z`cg>&GKc47r?JbSCe!c!3TF&r#zq|87->{ce
z(a7}PYR=sKuj3IN`1vdTnsVnK3i-3#zO?HSC(<k{5goW+I%O-5GLr1)cGqdyKiq1|
zor37V&tF`PO}4)WHZNb7(7IyT<h9Qm(Sbk5@zCS?p$4U2HyOiz^}lb{-Jv2ng3#+5
zQ*(R6GA<IVz&Y5B=)nD|oN85zxjS+noP#t(2fimX9%(4+bK|m0+cX_LCMGV2nh(4#
zJnlbqR6BioA#7qq-f5qIx*}pduoK|5D4XGGB?I0cKJylBKEqD9t8Qw_o~KH{DaUl8
zWw#Vk-g+zFZ%$n2XsLGB8`C-WqOyOGwYMEOikMELg{v-k$Wr}G|5a)BJFACh-k{|J
z_np<`$6>WdA1B~cVmeOEd^T-L?L^>&Vmf}JNgkTP<e$JHV><iU+B&7|e1w6+kLeWG
zsdjM-7XJlK_iMbIt4%|`e|-Hk5;!@Sj`dm*N8>}DZ(s47H1eMd5TGDB@VaQpzuF$Z
z@91K|<@3HRUM`YEOeY}Y$?Ti(x;`br@2A_T!d8qHw0z)toKG*x3{OdRDD9K_WFF4*
znTF`VuhYKYw)A>BFwiQ4D3h~+V{JeVq66=%D{A$*_L=hB<PE&4pVBGy+Z)k=$8~N~
z+}oKuqpHAB#B}z!B^nlsJXQzJ%qzT{vuA6Zer4_32ApzCr}o+=H^G3}-N5n2bkg*d
zd$WRSZ6zl%MAx`?J1ZhO@cI5|SV7(Q^ZJICsi~>bf&2ghq65Fa$|o6|&Aa{i{9Yfe
zPo&Gct(Y&-a)v+u#jX999Jtx>@|5Ea;;-C^WmE^AKbuWirH&2BRc*?v<9hO^|8ON@
zJ+Sk(WyPkf-u}#ot}X0-o~-)<5gj;ZA47#}w-yJuq<_APIqo5!ZjR`{_3(yF6p1b~
zqHX>*{E{5){mGB%6h0m)r{wiE0H>9X)-Sl8YsyL88inHOz=_9nq;<xR1Tfp))lbxW
zTdlhO)Ev{XUw6tYVNHxCaQHDDHDfuIjR(>vlP><L2?~<4ZEZ%&XCri9-6Z=m{{;EP
zZ+^SgZ7sSZQn>l>3okEnz7(GU>l8O1#oHZ<)!m#6U>@S;L-e*6zDcZ`lDrlc=B!=P
zg_;k%E__E{JXW??7~%Bb3vJSrX`vzJ41XV_qpRTe!snsK^!~<692ahf#v?lLb5oZb
zS*q^rgGgl>zg>WNB9Aws1J^T}c`$1Ez-5l3sh**WBR*BOhz@+u{2u4XdZd2$2H;3x
zI>LH;YU&)zrGUeDfi|DvdX$rl2_x?|v>fl-pJ}pz`luYyfzON00wWatcjXCImA}*p
zufBNZAUg1U<H{4hjl9Dy!Y}i4V#6KRv3nyr@VM5!+_84c@y_PV^-uJ^DSkF1Av$n9
zu@>sj?T(q+2~nHAu64b1kbvmG^XHmR*L|{DCw<%S*BC)r=jNH`c>UVFVM)!Kjs6$(
zs}j+H_xa;K0eQk@H~B%o0x=!!<jjDIRU78EjGZi;xpVR?3DJT3wId|g?%cbwoTVK3
zX0N5z>nxbg{Fj72E<O$e@SID3hL$s&&u$0lpBMf_%m9aq=^SQ@Y_1Si@&*nW)5*wk
zzu|HGY&viVn9dG@J!#<<(+@cGCcJ!BW{a;LpLzJurq%rR1`du{DyEZDDe>W#ws<u7
zz5^N2f#;95->Gw!mckFWcgj9Lu<NiMKcd4Ao$vh$=LvOnaUP-{3gdX~Vn<Qyf%n7X
z;lF5~!lv(Q=*=V_zL2$_gjf$e54Y&#eichJdl=r)lDT<wl^nAXuU`zF-n&ua&2{;t
z=N>I5QrA=>I`I2;WP=pG#+)6$cmMoxmg^}K9&|(pem>n>xqRC4;((*jp0|$gB@18G
zBRX(CLLOf}J`B0=_WO|8g~_-EolryvejPHlttRNMwb|U^^oE8eu?j*fq65#v<MvCr
z8QEd`cx(unJx`9Cr64-+y+uOfLhP-8@PWKf#jnd<b$$mTI&i=2d`SmfpR=(Ko{GJE
zyfa>nis-=quE@g1xpZRkCn@m#FVy)1=i`;HC-2T;^Zs48<f$FEtB#`f3wE+DheyP)
z-7ivG-jEcN9r%TeI4;;Zn@}pqzrU*EdBe@wHu8`dKcWLa=bnuH-N5%$lDdXybijGV
zw-!_fu7@a@6E!Wq^2@_kS9NvAkCxpHXzLw*eZIW-@%s35Ck-FtPn$_A+t17(I&eLC
z;-@!LNDR~SjEgB3BznG7B0BIo6>#`5_O5PsZt2cWCu7$)8G)Ei&55}8nre}T-!Iyv
z=s2>KkPsdCeV&sSUK$r}IzPhmd$mJ~?i*G*q63esccrj@q=~eA5s$dO0c*x)DyFli
z%EUU4Q@Ke#DegS0bfyRy(|ISD<LaH=p^%>ctis`Y(*gn08Gj_NBGUY)kh<>qF7c`8
zYxH`wc?jq8eM&s%g2fqw@xHjSIvGU)DyCy^IizgACPbdVK~9t_?GqzoI_a8<EC(cA
zy?{f&bjk(`cPMUEwaFaL>yf85?V#7;<+J)p<Kp@?%iDlM#dY3xs`ktuNd^uX)48de
zqV;D<#S}OMOlR|IrZhF0of|mxr+E2@%a#u%sHRwY&{FBUiK&rPOvi|5N)vK4^#KkU
z(<yA&W%41BJrg(tOsBiL>E4Q)FS>w3uf@w}ctvc%Yx^B@z@cI~QQ7P-$1TpY1BZ<1
zIK-DYUANop3>*TcbKFVANxnog7&!DAynG~X={&olax51(R7|J;OX_Iu$Nmk#A!9nh
z>sGH*Amk+ihk)r!7u|Y4zbJVbIP_|~eA+)I7<{9#X#$6e>3m|;j7&dGJOLasrV~tz
zpOCg+Q41UbrgQShnOgPnNl)O=tMKx9vbmz?L)VN2aHyD0o3xm^KuqR-;E*vLrB9ou
zKmRuC0}cVx$s02nw+p|S3LN?qynH6dzq5Jl&sYQw71Q~1t9e`4k0l%6kTD&%vq}5}
zs^e$i5HOvDQ~tHpPanDhhhB-7k9M`tiroDy*%krT)vd8Pm#LTzd+h6cxt+pBz#(Hg
z%`1$~xwT#k1P%eyanyL>J;m>_2{`n}c=@bTF*Q4Xuiz?hsF+Tm4(Um~*PAxrkTIPf
zQ*K-%3c4o1Az(U@TrDrYPiA%khyDmJAA@A=RpK+h3xPw$beekl1Aq6GQ-DLpbl5F|
z#J-fbX#t0T>HK&tx%bf>tqI`JAL8Y+z1O{8Fu7L@I8;n$a*szA<(#TCaLAZWD045f
zrmMCLI0Q^5I4k@|^sQ}<z@b;*<@5Ym8=u>o8Xe$JF&);6Q9<XVURnc(jOjRsembMu
zCw>t)1WYIBf^_)hq=E(D&>!ICBOW~WFh#!o-#nyZI-kz#9IQ=x<qYZ}V>)~1yHzu5
z*iHk7fawf{pJ+c4pZ^9p^!s@EScS2_9xf2$1`ZX|Q9ErTIbdI$3mh`0)AP%`I6G`_
z8gK}h&XxInoJpf6!+=A-hnG+J3;tWT>Mt1rhl=SOs_^AFn{nbZaLAa>Hs>=%p^w6k
z1BZa=tg2Vtz4MgTDd5n{@$ymW+N3{f7my4bDyEb3>uH5d5Bq=4FH9%%$@?M8XXIf}
z4*}Dum^9R1(!F^WIP|-C`J6kqV^*iEKo&SuOlRk(mUY9e;a<QYV>)|TOg8NmzW4+<
z1WadV;6=VqzrJJvhhB!4k8Y~z*n7v+L%^Y8ItrAM5&ly*IDkXObi%&%ylqXt;Q<^1
zrZXcTcq@Q^?B9KZUW%8`jz!-Szoea_K|NGVN7h2L@7AnY0dUBePO6ZQMX7RvCU6Lt
zPIs4q`R6Wyf6qJg61;rY9hvbBY{=FJ^-wXL28k>&+Tf-};E*w$>p#keUitjU1P%ey
zF<I_C-+kLh9XRx2ynLcg=Xzv(42c2`71QaI){;~oXovw08PmxLKKMaSBjpir2$+r{
zbDQ5u%Z`8NGW`x-KFl3kdY8!R|ITG9rsMCvld<-4{#`IGGN!ZXL>{Ta=(z@P2$+u4
zCeMxmoeTe2UqyKN9Aqk_uP9l4AJjv|bgHg8_{>OYOah0D>1-9+UcX%~yBatIOh@;!
z&-oia4(9`hPQ%ORMoDr1SN?rJfJ4P}nmCtUB$B4S0*8$0yra1C+!)p)0*8R<blbOG
zihfr%1sr-IUOo!hnum6pZYl;271NPB+D6Kv?(7B*8Pn0>m$tEuex(8&0;XfBDPn!~
zyy3rfK`+3|XRn~BSrH494b(%$bfOQ`uk(9zlL;I$rgKlGft-3hMh`dyOh-1~ZB=)T
z?-t<DZ{y{o_l&o}V1gzB94e;6aYN_EDXM@KaLAa>fTqLno2LuSz#(8dysIfE!WY^6
zfkV&7%cm*9J*J1Z^f7R#m`?8jiBcu%W((kuF`bg+86h4+;Z?vPU^=RPf@gLA8q@)Y
zehV)j<*fbBPGsw<0*8v}C`2~Ac;_G^030%=v)~%={B-Z(9N-WzokFEG2RGijJ`Nmu
z9$r4<f@eQSvUA!1hl=UEycn%3vZ4Mz`CvL;ma6iHzQ##{dI*?~rEx(w;~k$TaOk;s
z`RqGrb7t}CVkB^=m`+`a7d`Tb%O2p6F`Yo)1<yXGoo|6dz;p(uPrUk2cc20|^c=i=
zzDOTCc`qt<>l~@>iju5bE)~&%--i~*mESYWQ9lhFb4-Uj?FX;brqmSRh+;Z&Lm!hx
zj*rO#XD}NrA9!3ka_n<yLZN)Xp<y~kwni_nbgr@hjyI+=e3YYOSgQCEa7dWW)YPP?
z-@*PK;ILpi5^qwL8@reRz@ca1<y`#4TKss^>CeE4$8=H)+QibVk2eCx7SpjmLCSri
zr0^IxQkc#Omp1bqbDjY=@(jNgY;a*RGSTvZ->26g>AO?rX{Q`;XqXPu=z>au?O?O2
zEU#K_l(ho|(}}C#+DM$3lLihE(+Re4`f~f-#sT0kGVt<IBIb&T&lcSV4h_?3|6_He
zwd2$*a448g-$ccD=a~OG;1Dq#ubnjyUj}B~01hJ^FQ28cOsC(*_I|*jVLH(|3ET9h
ztu%l`!F0MOdOZ&aP2~fJi0SPAeDkl+3LPonFw*eyk$inCxpaPo5pZajj=cV?{nryb
zD!`#&Iwf0I%Ba+Aw*U?i)5#Z)`*8mAq(5*Nsd)J~*0TCh_k0cp4h_?J=wK+uxrKKS
zI2250$AL|s_$(i|0f&g`NZ%CxwsKbN3UC-Hc=<T&y7eoIZ2T2CG)#wEtb`ie^IjM@
z6ijFC_DP!M?hY>C5HX!ye~u+O?;c_S4kH;apFYC<_tnG1_rRfHI?HO78_84&U*J$M
z9ln!$Mm3DIYk@<=bSl1xcc|*f{wJR#ynN!D&wp1<R7e2z&@i3hW)XFhm5)CFhl1%;
zT^g7AKHsq#I7Ce6y4Ia{zYfVf1P<dSUOv(y7cUy~9KQt|8m8m=&De&-%0>YW1=CS2
z9Qa_#*0mQnL`>&RUCrXRwiW-GKR595*?F)-*5UXeNl*_B(-|rLvf=*w2i(A+U^=fI
zpVhD_Io|;e5z`Tj=Q#YO_QikhKZ$tx{GxPlM1B341nQw-Ivi2@H_r=8g#d?w>6i*n
zT-LdmsRkS(rgJINDKt!_IvhBR1iXBRQSr=VLxI=8p<y~D-%i|j53>jZ4h7T6-E~pe
zn$`1PJw#0Bj$Y_i`EcWZ>z#2OFCRlv`m2!RX31b&G)!kQtYgRT+UeiGp<p^omi8aG
zOAK>?L&S7m3tF%oVBhm^-(bY!<ug!qY^vs@c`2xehUs|g<eX7?=<o$N6imnJD^F1M
zaJ~s}h?ven*~jALBtB)}Fyip?S)p5U+~(v(HsH`O9cSI_y+5o%*nvaAbpCGLGx;>T
z>EC^Wi0RyW(tCWJ*zbSqoe_(dPhj6mlL;ABLohBHrsKzY{?^Y_>muM#FrCaJds+55
z%NGELi0MQ|=f+)gV@3go5rdac(VP*N{)IDTz@cF}+3#~a45wfH=YELk{I2>bL1}Sm
z0QC?t9eRMD)=sfeZQwAj;pNkrcwqIsZN(Pg&@i23F%jRdr?+(jhl1(IG5#1lG168A
z4iVE?dx*s6=<@wv-x<+(`K)NZKlx_b{Trx<hUq-Fc|`Qs6T|@=3Z~<iXE2r^=(Za;
zL`+9V=JC>zFJ}LqyBSe<`53gcJtz6T8wK^yFrD53+cg72Z?*%6g6RZFoZ!yW3X%a1
z5!317+4la!wdjAZM=>Jt^3i+Vu6Q6&v>4Pw!*tdt@lWjtV8{c9g6WXS)x0iGf02Ph
z#B>JxewbN2@%qpHL&eKS$L!d1vhJk-P!A2$xjcJ9Z13*8yTGAfItnV`zQp+r|JFMZ
z)44t8@AmUz|9@UTyo#3(|L3Eg4jcGaf^pF>9nCThnYBh&Yk)(+bT;t?TfUF@^#nLX
zOlSLO0NHWn%}>B#MBwEUEt|nYoLkWd92%x09HY2u)2T*F;7~A~9`O)+K|#w@;1DsL
zH$h?TpVzDXyGJpu;N_E=ETGC^(l-t2p<z1F&EtZSi9dD%hl1(o+O?2=mVCAb4iVGI
zT0sflST*|ZIfZc<FQ43&_*>6%in2gGG)zb9m27&If~FjBD434HLz{2a<oEyfF(Rh3
zY2I&h<GoA&o_83R@bcO0P;auQSO4EWPs4P~OgpPq8G2m!mk*}1zH35%_iq{rI7Cb*
z<F&>mlAP-y;4s4R@~Ji7U2JRh<ljAthUrvzT6h#I8}osBD40&*p0dYZ61_ZtL&S9a
zcxyh)9P>Q^97Y&kJ~8S8n{V?F0)a!rbgmCR<4IS0S_d2orqh#uq)Ob_$Qd|9Ootrv
zK)Lwq2Yui$Lh<tPS+U`!^~Y~gz@cF}>$jO?JbG1l6gU)2=b0_vuaaNfqQD_yI-2yf
zMxxQ<f9EM91TUXAj!)0L&RO^GbpRTs<CA`*Z+Cs|elRWyrZZ$+Qz^Y;)4$g<iI|T1
z9p<LvE*|?pJ&a(ye7IjVIehYC{r5U84b!1e0{HfNhwlOPP%s@SIZNTR5Z8CWA!0hJ
zr{C{m(F*1T4&x$TK0G<nKIG8{r+`Dlbc7xiscpIAX$~9;rZY0|D9%ovR0SL&rsGCo
zl#1Ls^KYFpF5u<!`1q@PhyU*A0`<@^9nRtC<4(WcCIW|o>Flz|AXR#&QGr9mbfScg
z#9NX1{ynEK&g11HdYt6Qz0Km^c|pT;q^Xe?O1DzagK<$Xosw*c;3bC3bKnp$o!pky
z6!nuS|IQu8IlO%0Rpq^9Ofy!2dT5x=HkGQhjY)S*fkVM`q~>Mj9c6F+yN?ku9nMi*
z%W8|IbD$nZ5MDl)#%ylB%Vqn|{)6dU*Y>n?cZd`R^-wUK>6ar1k`@f5fkVV}THCp=
z#V<ap01hJ%FQ38|kJ&9}KmI#UX_(G~byL3YjG6!L8x%}uD9DAWZA|S1<04`@^U~*r
zH;nv$oZWXkmH+?vaY~%X-ehHFWM=O&8YGpySICx~95PPG-pR=5i0p(4SsjtRcQz?x
zgv9s#`{U|!yIsG3uG{PV-}|5Y?e%=Tu60HZffeMe_<;3^r@8Ano=gAl`;b^br*Oqu
z#!Sp^6IzcwpfkV5(6Y(3^AK|Q0G<9jl?uwwR$oERiZ@uFJDA1loCcQ+$iV_SDeYlw
z)@*aJkYf+%IBzrI{kb_54mo^)&NoTB=)u9vfA@<OFR(r?`<Cs=r$hcdCtv{`<M2y0
zQRP)C&|LO_4)MyZOC6j9$B@GZ=+p{xNZSzxK7pK-hhTjg)2a#*Hh2Gh9)|^Vit6%z
z?426__dcXOpwsrfEHXUZ$_1K>574nmc|;zHTJ?mS6;H4}bVa?Ca~-qaAqNZSX#6<J
z{Oh&*8*=Oc9g)Y3We*5lP9TR5&<Wa7sdVPC|Mxw{6%VjJY43NxXl9I`ht`7ybk3O@
z(BEFNaDW_pK<7qSC<{Yrw=v}K0XiK2{lj&(n@|6D|8fWGvmmEM;VO|x53L6a=t!w+
zqJRF``gc9F2XqP!EM<0EJer{O@BunXUCR~|E>C|!&WamYpK6~%?ZoHg|DH3kfX?A1
zW!AmSxo&7Z_JB@p+4dEd532vW{s1~P+?`pZat;4J*IRJ~>(f!H`2~A!(gT_c3+U`l
z$(=#R%>H}7&K}S)aC_A;Qu+6P|Na8ddBI!1@zN$n6`E_s1*}iyUAEeI*%vF2g9UU*
zM`^AF^zs-$jy<5`b}aR>y!OSv=L9}LN5l4mR{vGzf8R@4aR%$-mXf9|s6zS_nhOi)
z@Edp#ccKK;A;%ujNtkeO)iiqYzw-;wxop$2zDM@!f1eLJf%U=jQ!}%OGCU2<g#~o{
zygS1meSiEMa_j*e1-?8kQQw{a9Y281g<GXz{p$w*d;jMFSRdsVQE@wSO8?&X!vZ>Z
zvuZx`5|cIm`T#m?=R6<cv%dWIzA+!5Q)i&0@|{8W6ttcdN3cFlE59%gG$_|02Mg%9
z)4pLCLu*Jvjy<4*kMC1gChw;OIedUl;|)gJeq(VS$XRg!>(k=LuqC)A#RxfAKqq4<
zzt%U%SXi3!v+VV1nJe~yPF(Q2jH`j3w;+cP&=K7I6>ch=uLU_P_F#R+?&f1w-Z8F0
z4i?Zk?CZOaW-Mfc9D6_~i_|XY*m>Foa`-?Uub&lfxOK`QXXQRv9}cP+J=1RaW5~e*
zI%+SDqo*iD+aSjt&{@gKF;)pI_~-BeIzjyZeZ@hNcnVt2iXB*=4#lFLHZ7qKkb?zu
z3a9#9WT)l7L5@A3lT1sW*WxaK2RVFz4zc)P|5+`Lf6j_6Sf9I;S;3OGCB>liU;!P~
zr!{Zm69^0-#~#qRVJtBHg#3ax<nRGHrY+Oid8x&JA!o$~tWTF1Y27p3nOMld0y?KJ
z-|gj3iq(Z2dqC%%u_V2ed!0Pw@BuoqQAyXrecT0yzf?C3d8%Aru?FiydGaYD<-qL?
z<X{1v(}&pWrQ5f6A;%uj!C5{pUFf;`Z#{f~&f^nyI?j>BIcPmAR$zS&?mCi(Fs1%m
z4;Ih~XGo-a^?>~hv>tmv=h}s>&GA0gE0Dtn=yVLQUJPvx<%gUVORzq6#yX>YT?!+R
zg9UUZAM8H4*S7Esa_j*e37-CT83kTv$l(KYq&^-AU&!jbPw4E}@w@3;|B3}zpUcmy
zaSUNkXdwp+=!DoA4$j2RJ$ZZ~{tU%Rtb{#62mZUjw+n94jp!_qRzCluh4Z@?B8||2
z|J{|;p+p%s3Qwz`M4ZZ~xAl*GbFe-WgFf#UEYOP-qoNZ@DE_osK<CT{PHi)D0xTnI
z#nxBDE(>2kr&G!`hWV-^gTMdKMlQ`O8fic$VsGB<mqiH=-y41d?0Mp>eKW8=G4*ek
z4n&v*zwkNk+WsXDu0`m;|6Wr<twfo%eyjpYn)RBNkhnY=p#$G{M&Z`h#Jjw2Rk54~
z+H(sr$_O3!dd{J^7G>*$Lmkd389evb`HDj5z}GV`?kg`AI`mMfmM4{bNRAR`imWqy
zJ<3Ve3}inZS1jYsaMI0H{fI;8z}HhJV8w3FCKR@Q5^iXFN`*`Z(D_@gT3FF=t{}U|
z(!lnK{2T?K6EbzGy)vw~<&4Ufbljj4Yp)5iKJe>C??~_cGxt~h_prE3PlLLI9E1+M
zPqY!Yj?`SBY(n{$kAC&&OBR66y*R5C^SW)b^LG#aTK$#IU<Y*S6h<3=gueWo^LI54
zKU2<U))-kI`0w6kywCdP>HT{HO_4R+$A5FV384e;T*_A~D%H~YWbjGkmYdOxdK{o*
zLo(b$^Ri_O`n_xmgbsYaT5<9oJGm}uki!n>baGMQ)7hROm;JDDE$Om9_pA}J&hS1X
z*^i&=Ck;7<ZcQb|rR^A%BXr=uFDzNc8$F*xA3X0qD`QbUCeVb?IS>2Y?V0<zVVU3k
z3P)nb3$^BVgA5S%xd3xEc2G$_H{5n!uq$Fj|KLx89?znJ*qek4qq8SlgwKwWywRY?
zGcHRD>s~2x1U+vcJ)YsmkF5XZ@LX%Px_Bx7-=Nzv%V>ms;7;%f%WsXD_34HCHQy_#
zu5~K|I%l^JS;#v_^YYU28ghRSbmM_Ku}+PjgycdK<!)TnOf~$9^!S0#l|MRNbdC9o
zFZ3LRMtB^;onLtmeQx*uO)9-3f;N2Qx~L535U~~f9No-gKlw{H$4dD~5D(B9$vXQ)
z?&4YImE4PmzvFdZH5r1P?*)`JlH9`+j*}5u^4uS>8gU36c%PsjH4>!J=O=52*c`PK
z3C45)o%$u&%z`_eZ)Lw}>%^TUYo`Eoszl1kf&_V*F@HL^bX_y2dkv8FfzRctm?`b!
zJ3<*bo=8Hy);u4F&>?_be<Tj$2<{$U6TUR0tn-s>+SneU1HV3>{*p1Wa9nxadppnC
z{_uEG8leM!9&?<>qNy9SbD`&FJcJIskH|H5*Z1cbwz+aw94qh~E1UGeI+r~?Pen3o
zO;sD8%QO0@gAEPn<hAB+ukwqvqGYB6<IfFAC<8kDo*3)(`PI|@r8!2&QAc<15IXSA
ze|Egu<wxjmk5tpx6(&4q#OWdH13!Mwy^C0D4qmwcIXQq%#i|(9rO;>cB5#;EwP|n!
zz6c%oTs`}YRzcA>KB|$fujd_{y{nASfge9gM|1SY%FeHOH8Y<V?Fwb#0Xh#x!w0R?
zHnbq8=^nDq@bz$9x9e4$l06MMXh5eg_sz`dqp%UkQ3iApSmn6S21viz4dvM7y(QFw
z2k4AYl9n!!3Kc_6(_OGW#$rw?W|DjYkb?$v=3)|GYtiW^Lyj__^C1EC;|39(C*<G(
zI+7UanBIy<|JKuV2dvND!SVA4@}=w0deDH5Acr^sU9YJe<R}9=lm;rQ!xZ}Skb?*4
z%(C9@9J>^;2sur<V0}g}OB?#=*#CwcG@wI%EY8~yP*MUp%7D(Akf>^Qn8F9h!2@)z
zMwB#CX14uXPt$F%J`UsiqebRa#?X4ufR2c38Cm3k`99<*13Ksy_KpFnI2*{p19T3j
zFrE|mqgcpk(gEwU%}n+%^ZTAD<e&i^idi$g<br?($WaD#J~CaQTtKfLLJl6FgWo^V
z{5ncO9dep(f%SR)<PxW1^0Er#paGqaS6G?Hb;H#lM;Xwu7hf^GZCX44Ie36hl**6D
zZ!w(zoF;9sKHv7X9=xkU@k8rD13C;UG%gfT{Tq;@4Csgxg|3g6)5b#%9-yN~cB}46
zF?lZJG--kL`8|jCLdS618*<Qq&e|`1QEy!ZBFIq&be!?;-9AtIo*8oR03AAZ<y)(w
z+Fv23=_Xj82ZdBot>O8Nkb?$v!aq}?MF)<|AV(R{DQ)((PC>JjLJl6F(|I&nb>dzV
z1UXGN!1{bYdjoShT=w662My@FRe3M$%Kg$0T8}cIV=5DNoXxKC7IN?a9ZYbYlD7cy
z4CFLj2kYZ8Kt%Ozhbs|s(11>gmSmu2HtiDRC<8jd-C_c*R<Hi;J074T(8{gGK<?$$
z@~-lVL_JY=(=}v$;IAu<H)7`gXiS`g91Ni26e~<f-hQ?QdVQ*c(1E`m<h#S={FLPu
z8{|*`Iv(K#9m(ClJjF(B^%hpSi+VMY^?|R4B1nPdJ3cL)@8yI*?M5;DI6&vI!C`Xd
z=<hVUuQ!c<AAMfZ0d%4)(bDq|w!?)wpH*H_rp}@ObQUy&@C_Bi??Fzl23Q{{f-fX}
zqaV&dP8^`KMC3DIw`#Eybb+E?UX$2T2cZLhzpg`kU3<A+%Kf9xy3<Pq@9XRc9r(Vp
z65pY=zR><8q|=AImASrYRvoNQRLic#hQGTye<)d@liK6)96-l{h+VS}k8Y1KhFIyt
zORrH2K<AlbU@j%~`cn-mW?tTp`yK2E9eC%plVe>bqrP+&Hf@hbil+uP)xi4vxH$gc
zBNg7mFZiQvJZ9mzazIBehqkixPyBu5c;}OSr{+O7gbw_3&m}K~X;xizYaitW=a<=O
z)j9|rV%Yo7P8y73IcGm?&Q6m>ju1rk7$9`u$Kf)qmiVmV{$I(Tg@G^pN)H(T9b4T@
zpCJPq<@<f?4};!C`ix!$+po9rmrd@B(KXlStt~$w>&Zw%=)mtgX>Thzl|^616tKz!
z^lFw|vOws-JG=NW6O3YxAGR!ym(2@{<=7*12x0s6E~L$TSvQGJP{Sy)$2Lwt2cdHo
z=BzCz-J`FpIQ&G7;(xkokP7PD8ozx^8up?ar$>7-LP)rV)PWz*wOhI#w9-d=BnSQ{
zl_p!$A_(VVg3UES(qMFi{jA-<KH0s|xK>+>(1Bk!+|e!DSxN_0*c*BDZF1eo7=#Xd
z-;=JrIxnNZBZ=b@8nKDn*os5wz}MsOjE(icAT||xPC$AbUWD~&+xT`s^1-p;F1|(F
z&gxky3xww>70h|?``Ppl;zt+GWT%*4Ko`Yf5jwOmN6q$L!qpg6G3dDkh44BL{~Tm~
z_QkQHCE?u8xf-^F#yy)^gzF)Pt*1n2{9GN`(XE#Y1T~_|Cb1L<*8|@#Chv~7&HFJ=
zQ5Heo@%oPnkgf-Q{Ryxm*K}pPJHO{69-;Rk&K_xJ`1#H#!I(ZgQXNZU6FYDl@0Bc4
zhXvNhKv8r$+UR9>fPVp&>+~OMO@w_&Vb0DY%{MU;D7*(L7oUss@TA%!bl`K1E9rzf
zm9fXIoi?0U9Sj~o>cG!aH{+L)ChyHKV)~TIGObPaZV1;y2Ak{nGnYV=go(jM{i@NF
zP@_&7LI-~QEcxGgEi*1|fzM@7I<0g{1L<7w`-Nw<kr*d)`z_8>9nTzSlzep%u166z
z*8?2`nuDV0TIl;o`+(1@`!yART<;`*VH}V7DU|h~yB5%Sb~q+D5#EZmt9a1cSkIK|
z3+Q}%=y1Q?>o7etqvrhQ%|}zx2p#x&Iv-=Mu=(g%R2p|I!RH`gkB88KKSy!&Q3#8<
zPi2vn^vpJUG`2M%+%LFOq4|i$`=lUa$*A1B?ESS*Xh7$SgR<ga*!^egsmlYd`>cY>
zfDXS#MtNDNo5HfX-#NOy-)VS&PN#w@!?^b+vr!9?`=hh5cbX7h=iz;*A9glUpH}H3
zr4>%di!O>q13ICa9o^zAV+qaYSI!jVdT%NNI<XzPp_jEQ@zWcoo<7{63B*I_z>mXo
z+0o3)F54N<>n0q+=M8wD;<Wy4`W{K|;;?}Am#KKcNS}Y;PPve^W3Z4yGUR9iuIIzR
z6hB!)x*+7B03EkrRs66<UPs8mT>*Q2!S5?hC@+u8gB%Q?(?5?Ia|}sdfE-Og=XB1&
zy)A6(8^}QcI)eBDGA(4ExF83o3f9MybZ2HhRZ$gkFo4c*w%MxKqP_>@XaYLUR@&Cx
zs3AqjK><2G{(ZxrWMvp22d4to$6lYRIzW*5Ddb=PooZihP86l@dC1WObeP@5=;qpI
z1t13n=p3dd=q1#OU4k5(GFTrcV^R)+d{SA+!2mkq*hq!Sg6<N?(FAmEeY1OE{CVSF
zXB42b!@$IpC{H^Atp}$B)@N${gxgMIZ4PoUfDU)~<vE3I!hhF8O+e=YbBBjA-+g~*
zJt#n@_sulh!<2wwE8D0&!{BCCoFZ5sli-iKcmJ$@gB%Q?W3(&%qU48rKICWuI?j0k
zy+hpQnUI45bO;8tPd%2OcZD3B0$86H=kJUNk2?-Q4hGPPk7h4SGa)pA98ExnQuFac
zw&Xj1AqNHM3@F-KHK4ckAO|N8)@OqLoasyND-T^Fa(fpqQ#xS)ot)!ph2NTkxsam?
z=={RV-*gn;7K0oVpws8Q9p}%nrVlwdIj}zMQJ&6AgEhY(2LtFl(|=N^q=|n5IhueD
zm4cAF<qIt;$Uy-*YHaF43ru3ckb{#2>ocLzcCjo`RvmIMfQ}CTlPNz>7jwwb1awwB
zTyA9Yi(G~r6reNVZDD7<6%-0NI2o`$8|Srjv<)BYLJkJdsoPk5pA=xd138+2j++mo
z<8{N9eaJxpI=Nq4K2*ML>VO=aG+3Xs;4{}!jRtHE>B%VK)D$EzfX--$e1Ut>ZzIUj
z1au<H9@Fj5Denhr_b&>CdG4YBo%-5o3v<!&E-tgct0`DC1x^aA58Kp2hCg9t;_Mvv
z+L3`y8wSv!U#E3G=U4GD+Wfj7>arQ9CZOZn|AM&p^rNinBO8Q{YWB4#K<74Nd?qy=
z$^F*4px9J-2M(MhSRaOB)wYE?Me*IzSp_P`+nE?ZCxN!meAtic1CRN=^Pjwb<!b^u
zPh3MT=;Nu5VbCeBe$x_EqX3=l+>KcodNR2eAur=e%jD^Cm%;j+(G!tD-y}_aB0pvH
zvf6D51L$B+D%;xE=93C{cSzqVr`^>AbX1AIR8w5YD@>^HcAllEEkXf0%!Ev`Hq?aS
zNp^bKKcs12;UvKNd?@uohitzNdW5knQO^xTV-Py<&-I)J1Jn#&rLC^Mve${${~2YE
z(1E{?#7X7(=Xv{i^i$peTOF^gF+M;?;QHZb8=;M7{2${eOs0!TSH!{kP{sIEaOy-&
z`wZF`%tadB#R57`{&e>_&k}KB+kP=8GuegP13F7<BL^vkHm_{voViwPsuuVF9m6k!
zt%<iAq;6X@pOj3lnXQO{_4y)R?pdB-;0ZZcK!>7O=GPUn^M4@69?&6PTzU7w_O*rg
zWK4<9`?TkLfX?gR%C;Ge!h4wK+KDNta=R;{V14xb+$}Sj7(G!DpR~@Xi%nqxojB31
z<oX^T@k7Tq6rIWRm+cWc@Xv|nrL0@HUJAGb^tc<W>I-k^Aavm8>FnFpqr{{XvAHpx
zH`GiHcPJ1#@b&morj6`9yJ8gaWaDN*yi)(Z2w3MVR@rpdp0Omgrz3cmN1t7-1#}+x
zoT7Q{=Ib}jOgHF4Kd9&n==eF+9p|K6)M0-^-$>pWPbCfLIBCdXJ=rA2I}Mg?(0;Zt
z`@&#->g<iaR!SYGL!ax_0y-5f7H6b#nJ++&FQB9QfX;JhMDiNsNCP_UBaiS*lxXH4
zXa5pdpU^W^B|Ngk1&~t<=n%ZuMUCc4(Ht&2dn$L^{qhBLqF<#r9vf*YR(&L*;d)6w
zAdS$0e@<khCoaIp6_GPN;>?=(-7N(Vp#wkP4X>B}IC(elvw$gXWW}nWw@C=Bv)Z42
zg198LPi44f5~}MTM$iZy_*{RgmhN&tef=j=Ka>0(+Erc?p#z_b`9=(F-<1o+drxmL
zOAQ_Rp#U8oHq(;O5z~o78@);WBorDa2-auvqh;WN!~E6uqwAvwog&E?gbuvVj}0y9
zIkOho)aD~)rGS<)9fS_NkJZEXtd?0XUp~!$wlVXpXNv;RN%)v|PgkN~-QPQ_v7+dR
zt5*Q54^{cS7zbL45rK2jxhC~PvT+C<c%O4064TF=7!92E`HM$q6V_;e(1G{y;91*U
zY7UsWBHMJHg5c*@20$kvfg>qs=*u|K&*fX^6$GkB`N8_oFmTTCqkhiZTy2rB{K7Gt
zhR}icx!Ug&z5hJ*_QPg{sy9!vRxA)Y@IGdKHATlBzZAws9h~ceZ7A3Qo!+r+^bX0Z
z75A!=+T?`m{j(R5^?}dzql=aB@08`n&_s<%^rJ7Qum~OaTo%@uHI^ri*%qi4s&Jn;
zPkTTo122@%TKlLp8e=S~KxUT12k4k&S8X#mJ!6njAWi?(J;AiX2iAv&h*<x_HDOE7
zw7f+Xxl<D52pxDI>wcDJrBdhIvL(qM$&t9zy8$}R>PbPjs-2GlH9j~<1-1)_06HWn
zlUupO4tXtw4`-6EJSf`a1?$rj7(a<CwBaHc3N@tHC~d7p=)n72zt7BGFG<)@`1D$|
z#9RlxFQCIUfA0o=3SJBJ`du2(A)GMT)v}mB@}uVY`HCVtX`csKANX7+THPm}gXu2b
z3fdxeq6&hw2p#x&YFJb`LQdiz@Gc3%HJudIk4EUg*W-SjV%&Z8{g`!+o$2OyZLKn(
z<1irOWjMIpKQ)u3cSh@zBp#qs8PQK8UTQ}!K6mLXjpdR;6F0KX@ILdwj!_kdTSVQR
zBZ1U)eiRsl4!qB>#f9qrkSD1T^=q_EO}I%-K<B;oZ4v*=$!=$ahN%-4J}jaTI`Fyp
zNy2;0%Gc4xX)O(chhH!Bav|#jpKHE7;!4TJff$`4K8LU&ja?i<2fm&=<}A)~?RM9$
zs$_KdCp85cAavmCAwNwZ9@xkkCQDTK=01Z>1_PjT%jNs?MCmq%zWI{bUW0M`QBGui
z;NLsd6?}Ra6F%@eK6~C`kL)!C7NG;5OWj3j@XP>)CVcSsRkWqDls%yHIa}%0yj1cj
z?O%#hWV(Z&`2Zb?26@a#_fZ;=B4#c4@VfWP1!R5T``*r5vhefUZM))B!=+ZqGg0LT
z9eAJmlK9%DuiKfA?_Ivn{ho8&4baIvH7Xh^9cudi;)(fV^@c7HgbsWzt{(3vnkvt%
zgKacEeTn|Wvd@964}7jm>G3?r2gbMPtzKl2WId6p1#~X-O1h_f-rt|p>Z-o^I>5~r
z&}mDM3=fryy8WvxZ$%c*VM`jJ1MhQdZpuh{O4MzbIqAgTCoL8ap#$&J8FX)4?D4_a
z<Kr7+-BTKsP3&Nu4KCp{qA7pxoPT9|f28Jf0~*i?xz6>#ckmVQ@QYNYBqNyxWkAP$
ze>z`(R4VA}^;XGB8slGhfX=wD)m?^yI&FpzUv=~|C{&u*koAG@R~VoA#)7IB=?w!{
z`Y@q&LkvO(zF#kRmLjf-Zpc4&33|-q+j?IU&@q*q%%vn4NV@X3zBJGG(g6yg1E1^N
zDdH;i5XlLOlCrDm*GHLpS&{XD&t>$d1OM10b&%PhAuNBob~O&r`TFT6F@4=&KJKkx
z-G}|!H64Twe69t;cOg$ti-yvQ$*!o1QXexQbl`Itsvma9uv~c>F-Fh)rzO{Zlm)C0
z`civk$jRBzpxYbE)Mz)QG(cxUrz>oyM$b%cKk>BFp9vxZgbuuq<HuaJ3*4RAj|f+j
zb#_Yd*bzGLKCA;<K9`A~k}mu2YsaPY-I+ZP)@OsbqL-?p@1Yo*hA0bjh*}Op2R@e!
zYk6RK@Y~GfAE#Y+`_pCZ5jya>QuNeapZvvzxiQkNAD_@~@F8^I>-l>UUvi-~UV*MQ
zdqRk#G-{I>tWWlntLJVs=q}S4?N4R0yP1>&I<rRR?@K*5rArwJO0nN8lH3qF@VUIV
zSt-brzv0X4tq;}~Ub!oc(1CZ>GK#Xw>cRQY&kpnPiev8XGlBIHQXJV_w6Bu3?s{!S
zADmBA3+Tk1={BDzV$J$Ra+%fJL7>SOp#$&3HaCYFuzpiRaeO{L_-CcRGC~L5r{YVn
zm1{ri`Q8JTi{(QKJ9vOjv2((UEuCTSy4~TlYRTdLCPrkP;dAAna6FoE&2&GKmi@QR
z^LAqpI`Fyv`wG5i(M({!a;AquF!%3PO+d%kt6Uy?e0bUZy9$G)q?9uX&<SH6X{va&
za53Vc|DM<`HVwxB)`y{+C-+k8dGi&5UCBwj-t0Jp4!lpSzRF5lK3j+gZy-OHVsx|)
zphH6)Zl}F_u01&6u)J(FKbQj08H(%@73>o-`>y(?V@Ck>y_X)WPnGKmq0Uu>F%_}_
z273}l%QS=zyidn8kJ8EmxmaQP9EtRdm@NZ9$4Y(;9Zf2dJWqHK`g!qpF$18}@KI8x
z`l45B<7<@hS)u~hQ95LO;B%dCtG+6EO*NC#kai*9`StQNgbw^Xbw4F=Zz1?8FRJtX
z;$)lolm$Wuz8+Ney<hPOu3HbPRn7M=*x|DSIvn!50VmuS1|!ISL>_#yy*5h=)~D4V
z#HPTnf)YCry)$*Yn=J>S1MgFC#tUC-i1SPe$x-IToGxyAgbuvVM$9vLOrlR)VAkNs
z#KqA`K0v4MZH<A)GNrsS<1hQTwB7I(8n8aHq1CH04K>*bi`k3%RgYt^fQ~jM=u0$~
z^ls_lTX(MLW*2*e4!pA(gQ6;?m07k(^fXbL+n?7W2pxE51I8y?M^0Y#Z&*%-UW%68
z+oT5TbNKnqx4iWrVO`2)j$gZ*M&*Fc{O>X^x!*JDSo_h37SxQkZU`NCAH6#2mgUnI
z^;WMH>pgXK>ySq1!22xl4Vjb{RHv{7q;@oYOCQ^(0_)S%!711ri}AE*{oB6thKHgS
z&{5=(`m7%Q!_SPhFGBzE$6#MThp?}z{+U^KJWh8v&C5k<LK@IXcYg3(jZr6w8{5M<
z60#@0Pl>D#e7|@neD=fw76-iuavy8n{+-{1(1Gt)+UvLIq{ruCHc*FZ3ND=fXh3H!
zgLQN1MC}ba=G`~B*CofwfX;8C%bO)%Qs2-WJ4?mYe@VdubiNDX0%#J&Vp&#-J%yPU
ze3~ebb%ysL^PbhAM&pO7kl?m<&#RiE5jybw`lb_d&Y8btuRlQ~Q^K?JjV3||z8)j4
zYdcOi@*-xAlP!yqqlHm`PAW@asm{2i-Wxkd#x&vX8#r>XJ_7ff@R~^p`65#17;{ps
zF&KmnybpfkqyAIRm&FgsR`?hysaACmI`BS!B-HZ*M7}2rX=wR)DM%Gl06Jfq^|Pav
z`Pf1NB<%#k-0$_0f%Q3#?6|iVTq;Q_&-$uNPg5ig(2*u!yFQdI@+jujjX7L<c$*GF
z2j1D~z)qYd*YfA1*C%OLtZq{>AavlJL(6lghSivk*Y8}$|02?TFiHy8r;s$;Jh1VD
z0U!7IkCs8@X$T$oT+a9s-`8J+Hx2oJI;;|mNw+}gz~^dNZ;;Eke81A=ldnq^Un;;3
z=y-fBHXG8tSu$3@L4Va^Tw(ScSfAhbV)IasuPu{a*ELS5OzX-)=)n6tZoH5BkkC*b
z=)jv56vW|ckI;elnZxTnd{uU)xBFWL<Jyk;bv{7n_0#V^Dnd)XO-X&Os%`NcSs?-I
zWAIsltqhH`c{z-K*VkbZg#~o%oswowX=e>pMCx4OWv=nHN9e#iC%xdQcMj!K%oq}U
zx^>%MRs^8~@9f#Fry+#rp^D3;yvZk@Mz%=|*2m>#LqabRnLOX{Q^y9mIm2>5C%o8x
zdt=9KxuI$sqk3NBfg3^x-shuKA*WU3u4({ra8};MmiN*K9eAG^-?zDvo+(VHiZd(j
zMfzOcKMU5!zhzpZmZZ;MxbTj)S=gRxEkXxASLYR1|386zHC4~Pipq*qu%Zz<@VU^%
zF1Dw=d6*;wP6Ah5eeNp*I`MtF&xpC)-o*K-Xf5pQ$>Je&;B!6CIH4P;j!=zA*n7R1
z+J1yXfptDyHnY&PPy80Or}CX`x1byY=-85ko-J)O3SnqqBf_bQaA_iR;Bz%B>~+bJ
zTnSmr6A(#X+MlFA=)m`@7~}u8IHEA(HBIxYKm87`dx-%1j6`lnhSuqlD8Brac-KrY
z4$vVm{q(2OD8_K^j`@urF4=!|5IXQazs``AXBS)M$*sxoD)yT7G9Yx|ee#a2O<lL?
zxRZ~=k3Qy!xQr5l^${LEH~iW0vJ7ipNxFK8#B>^<6Q)_dGH575KA6gUck#5SiUFYW
z-ZfnL;h&-sNzd_)T-A9r1E3@Rg0oODuY1&vP3+Q<?ZbzoXOQ)Q?^i6p3FXnfmy7lM
ziEO@gTLU==9r%7F#w?Eg-qMU^(x}3VdpzxG0qBfwJ)_^ZH!2WyH*y{6w6teO=)mXt
z>q%nuZdx%mjF~-=(X<=4LV&Cfe6Cxq#p7qnVo}a-JRe`+O>n{jI#j|6!}!P6udO$l
z-PY#E=j{QV!mM1cTNzfe#HB2b>xZJ8d<Y$QpDj#lYmFXfqIBL+&H9@9+s)HpeP+@h
zhQ!31hG`secKW(RQkElh;OntHekDbfc>0Mg=62-L^eJUugbsYa$WuP}F!E~|k<Xgu
zNOHd<kp^@uQvJzSyDftHR=UiK3@pX>Pl5GeCwnQ9{kpD8sLbKhWkPe3T7(X~59No+
za{Rt0qD4O+3YIV%7orh5@ILf9zm$4zdMq1%Gbt8Lh$U49boRxoY%KXHE+mfyHdcK@
z2jL-f;B#H(JMY~yL(d)(uo0sA*S-jc57t>?Lpd^tu5T#fL9sb|%d!pz(5Wg}lQXg?
z8!jMkU#+TA`J;)@fzPF#L&c>2F~2E_^MziV>u)y-gbsYaWP83$GWOB3WUeWQI1U!f
z^x}c_d8N)TYda8d^3}72;<U0pUK~OPKG(0!_3Dj_LCU*&Q{l{Qe}WAVI`Fx??=YPW
zpGrJoFUt6cZ%7fz0O%Mo6i*Y(-<3DhzpVR?z2x`k$={Rz_aE%fb^d?<3!h7k>oNI@
z*s5P4kH0W&o6|4mAavk!U0naIzxPQmt@@->x6hjMlLer&S{NcN-O<%TFE$rw$hqbC
z-w&Yz&2=+fr?Mx0p@Y8gL*DG#_`=FDG6z1FX12O1t#<Si=ie{odGQstuz-&3q&s@3
z{hodG?MDO;Poo{|5jybw!VBL1d^z9ERM@aRbEh$wO$4C>pUc$el^1()o#wAsao-6p
z7|d_}1?zJ@ivfFI3CpiD{S%{C)Gt$x(1FjzCid!zQ&jD6RD16>dBsOLUxW^Pu4hH@
z4R6Eof^bq|crS@Ho=F2bS<lHiZ0c^J{7YA#{0Ofq**^m7!`XYjQDL@jf2D`)Nk0+o
zNG(DK-bb*|)MHY!s+ZpG!(nFXw{bK=2j0in*uHU*F^|#ryBck0*`BpBphLE_gm10U
zR8}*zK{sX7w~dF;fzK8D*I&<&`daIxoFYyqGPDc#2dpz~r77;9R_*@w2@~(1SDaxO
zKu1O2*ByV&|3b+$``BOdnJG<#4t%b(ceWx<q5PM9NO>1ClLxL*AavmSB~bq2&rM^m
zo3?bc4(r)?0lkM{eK3q#Q>TeGc8MZw3NqfF)sF*osPWVO`>SeflQa?~EQvJDGCF|H
zPx+Y)emc(Q8)6sf-rQ`Ip#XIH?|t5#dOJz?xmny~@peH}?*Xzt@cr@{KUHexvq3{d
zSa!$E>{?+OLI=KI_6E07Gasf61{H|vCOsw@GXQjU)2yWr@_B4qRYkror=|U50Cbvc
zIJvk!W;>qJcy~~)_4eoJK3JbGO$J8GZyugpRLUt4l$UAFLFmBy#9lc$*kyT~L?U~4
za@~u!+XB!bl|&t=Uv?4hObx1RrA`!J2XxBBQ4f|Kf0dHn2{Uo65~iR1jjRuRF8v9c
z@NuiTQxD%WP+nG|?Z`psz>mXrlf*%~_#_i&F3&}NN8fFGgbsW?&2Kzn8!ere+O!q1
z>*tz=`2ZctS8S(-kGD^L5XkI1<{3R)*+bR`K3DM?L)iPEkgMKH5`P60EB}@wbl`Jw
z+@ItpKBc!fcvo*c`nc(>8=$k}DVKKbE3GRFdGC44FHHAE5IXR=v{Z?zXfYqj&dpXl
zXk5>++}}mk2R_$_Q-LPWGin~$om#eFtz^}%1$1s5U%a&wu;{=prsP^;@UGPtp#z`G
ztC(wbQhQ8&_YKo|J@=P0$_O3!T;c&uVji!1(nEMzFebNq^Y8#2>n7a*<DmJPKF<Yh
zrB9D9HSHkl44-Q?im!EalQhLZ>!q$~L~#NJp#z`m`?e=xU!7l2e^}<{A~r<@O+aV+
zD$y$vD~5|b+o5JZN^Q=f5IXR=B=3A9+HpD)Nn^)%HefYPymuQ}ANXAS*+kr!TN3xb
zAKEniJU(=a19a||7J8dAU(8(N-g>8W^=X$5LI*xqrF;yF&q(0@twb`TyuS+@3<w?g
zT<NYBJCDZq(@i<EqiPejG)I4d^`UR0N!gtoRkTx`?XjVGa4`+gF>)j=8?bC8UcR`O
z7*XmMYk<&!_i?%`*e`MR!_s>KAJJ6Ozmx0;9eAH^I$MXT>i9*aTKN;D9*--tTVQ?S
zC@@2}-LU+A7*#0&8NBZ~2p#xb>f*l|Xw0Je3JD{;^6Ij@?GZZgxh}=OyQ^xjR@N30
zEMJZCUgraJMg>BN^opW_4Hs?(vrIXDTG>R_2R;`G#$7W1N}+zwh;hA^j{ZzJLI*xq
zL8rkA-bbb$=H&h-XBGB1+yI@ms(6lQnJbCBrj56!n>{r|5IXR=o{diu3O6daE(d*`
z`XO`X^Zo|1KJdBHuA32S6Pk$j+vUf0{V7eZ1$4{@dC{1VojRg({%IG!6s7wjbl`LK
zVWlJk_8SAm@0Rpj!v+y4BXr<%-BDJ^(eXn2omL?0<*<94j0fllqXIiHryZmpW=Bz)
z*-xHn`U%##?1FWhX6(6rop&ZVWp8qm&<GuPpNRSgE{ckHn-{)01~`xu#A+gR;C-|!
zS%>2Mt?~6aZr}M;BesJ==)l)QmqyY1oj^zPkBL?h6-!=d?+>s(%4E}LTBd!j_A9$d
z-FhF85(nsnFw)dd{54oJewb{aD0C@a2cZL>>)FsLk4~ANxV&MupWn5n92pQg@Xol-
zsci0Z_4!UOBgZ_yaS)BJBkKcSk6FQb!}(6%1WESO3-a1dRXGS9_<C|vtbB5&xt+dG
zDe*b&)~#CrI)<^llArHAuB3mQ^43IcNt7L-1E1^JFulO|Y_Nm=5wDET2p!GJcVvCw
zbD{V>Z;Z$;)kf#GRlI1s?STb!@@I*~cg}~hKFa%+irJa@U=QeoMb|jQ$_L3EnJnT0
z4NfWXA#~t<+WTTqyys@Jj#5(3=Q_muZmxm#iGS`M`CI+oEwAucvd>PsH_HK?jM*oD
zSiXsk#$Ha(5dXD@bpv$n`Z<uzWfE{TzL1P-S1e2tLFmByBxRCQ?cB0;DdqOtE1Em!
zx4#P3=cD`c+R^oc2jM|fs+y_`!nJ@-W=5)!1*5LqtLoj)NsO}Vz6c%oTu&8ZHXjSV
zFEeb+J<#(f7*$5-z|RXU#*&dRo9JrOXGgQvcrlOg0G-bf!Q4^?%ZX3bjn2ijvfXQ1
z0qdOIcdWs{_9rlkQgp%={fQin(1G_M&WY*bYCWC*xf<&yxX>J-iO_-fG2B#_@-=5y
zv>BjC?KPhiM*%uhPK}-dmk-2m^Zr_ACG9i9EhFm#pDR#IkTi)cVT-iq`8m%=dbi>b
zI`Fxe#79(45lEUC3HKT%#7Laz06Gbqk*`LZByKc{p#4IqE@3GUI`Fw_$TSrC&F5`6
zIz@FSZ~AqNE+Oj!pUbJsq;=cux016%w=aJRZYB-TF_IoD?Y?jlbM34z<*jXd1_MCH
z7iG}3TY^>FBPH*xc8fA*K<L2xgueQU(boK#dKh#K&$c~~eRdJ759LHm-Yli%t4QM>
zSMp36iyS~lMERcLr2U829hdel3!m@Eut4a*=W58kZ~cvcL+5VuT3k@6cs3tG2fpu0
zkCUi+E_uF@Xt=}@!6;_AvH;cx|6LHJ^|+T;RnFRRG==j97NG;5%Vh3p3C5fCBRhYy
zz@<HrV>g5jd@kPGf7BR1d4IM0BdhS=zo#z{0d(+h^oC8N9=H$L&D1_-&Pd*z2kTSl
z)qg4Fem|LIP+#=t--UDKfX>ZuufGjGzbFVhc;#jd@^Nl}j)Sr0SW-a`=E7a0sDskg
z?;?N>-BwH26EPo_PNCXcy^bnRHs`?lsMD~gbahHazNpV^(%>6>RSxL5#_^JvzK;~6
zcOAj4ZpkFM0Xnv%^#n@=;SW4XLXubQliEZ8ooB~Fi)g2i!L?_5^efvL%$wi9`sju&
z+>4xG4W%|&O7%@u(kKUX+7H<Yl4*+i9Cbc!pD?#Gx&b=-)wLe3x8A<znOeH~frjX(
z2%vM8n|ot#B6Jn{o!QM<us+Yj9XZBs9p`u*#rnTU@^C0e=%8TVEb6MBulvHOAg+Aj
zVIFU8=^+-O1OGkf^l!sX6;?^KLB~(@R{pXd;1D|S>zKWT{}M_t&7b#g<@0!=XGR!6
zhj{JW9SOX#{H}ENkLe#gziR?IRqUfG6gO3yhT}5I<u8S5pa31d)FX1gAD8Y_<am&<
zxn$SkW{~YW{C<I(xBHIAoa@BfR=`<vn6DRy(1HJbe(?(wRcR^;YS8iHi_n4ZSMOv{
zk(JTCHdd>M**3+_5otiDu}Ju5oBt4VtDu5xRkv@>{xq^a@b$!B-#0lumVprueMiY^
zfzhf3bfhFSuh|uz@>O}o?xsA)_SzTFVF>L-pQv_EEp^5O2IqTxl}6~m_r2J$hu>&B
zd$hAmG1T9PlMfG}1Mjo;Vpw`>y7^m!soTc%9sh==DP*1D>#^O#w&q;zSF*l|7xJls
zPz{67fv<;eIQVR5mHlh9TtCg#rd=gXK<DI!-It|XJbE6)EafH9#MLN-4t%cb%I{Vd
zZ-qa4dQf&t`HdyEcM@42_*@oRKTT%3J}vky3V4O*3=YNtIs<Bf)dG<>)TgY!ddy6(
zn&|*K@5~ObRxwdnmpjo^a0t-|Qvf<%KPKicvj~4<>?JDK=!^^OodD~Ttu)5B&g5+N
z-E6u1(TG-k9H3)uJw<VA5RLuuG?`RZ<(IGyphH~8Rliu%$BHZe@%B+I%OM4zV`fGB
zT3}T-XVmDA*_8JM>E3Z<ec<;~3YoCvRtMES$k_yRd~aMgExl0ADHig2{PRq^9n!hr
z=LJ(WVW_t_@jJ*FMYtZg)BXh~xz{K&3pqJ}j&H;jGg02>E4d;qX%&Sb*7gV;`0rc!
z2=!l93%D*1IhugZ-Ke!g?z2Izki!S)OnBIxwjWM$h8z^2^PGm`2APav5#+3lAv+G?
zeOg%@CR7@pwL=aL(1}hr*%Fq+{DK@TpcCrEI(*Q7#0fbVK*yu@{(i*9NGjym13IVV
zvGU;;CtpL3CZH2#DgP(kEFl+i_y8RxvzyiUA+Jjz2L<RjPm*)Bn9mGB&dMm*@$>F?
zNpyW*p(f<u0G+Q9#ZQ^J?pQ+(7SJg^^p+SD$J>J(44^Y~=^(In#Zv=v>;avQD9mpT
znbv!dqY3Dkj<3lGw%#R#96mtjNxa6;5cQKx$Uy-*lZp>sD0a|$L(a+w*zxmi`<qhQ
zZyhek!2vpgf}Ls~O6Lh62Mg#Jd)K_k|L>3XKn@1b@k{-@zFw(Y4>|UL4lP^K{gwI7
zi;$xU=;(@>D$;fd7()&pphMiE<ydQ&@&a;DfKG#yK=n1QwmXosG7NV7xXR{hIZgBz
zLJkhl=`+TNzm1pcgd8lOGh;QJyUXIG1vwZ%M<=piPoHi9A9Cygoua(t5(l~U0m#t=
zbS~2Or=6)<YJwa-K*ui9aahS<H4k!7fKK)sHT_B=MiR(b83H?gqDjhUjV`<jg&Z89
zWBK>oP_evYGUQ+Z9ljD%jQ28g0OVi*9p8gw-uLGZo<oj3pyP2SXn<tq+acs=0y?LC
zeQ(D<HopQne1OhqM4Z03Tk^l>IuxMOnD>{FeBSKeeP?A5?D!F=5<@GvBtC-X!T~z>
zS%;6yzpVW`p0R+A!G71715#QCXgwG}$DBiX9OeG{fA=py=WW-{X$EiBV`x2^fKJdx
zDbcbtZ^&!cf!7Mh1ipNLPDx~V5Qn62?fR>-`pF;sgeZg#{QV!T`zncTT~;2!jQQkY
zR$JV-0c6Jy{P$c&Hw_AIlc}v2pMBJ*NUyM*hR}hp=arn7nwdFM$ziDSOTL(wQw9hf
z`0ID2@V}3QWJ&d*&g=*s_<E|u-qaLsb&(xsN1E#1$1TnFBkLmy`~0Hinb}fU{wvCv
zSKRKa-iEi>5$+fKbuRw{X)B_a>kS2Zq~E%R=Dy+~bl`LGQ}48Dg$pF^_hr9s5r324
zgs=}eY%W_=;@928?Ip&yOFe&EXf!qvIvg+u+bq^rG~Um%BXyHSw*9_AIl{T%$Ki{M
z%;^cWXBzZ=-8{Q6Cfa~T=)m9CLi^Wfa8M5{IeAvh%v(gM=OA>*U~{Qo)47TN_2Dse
zp5hQX%rFNfY`I4yt}=0qzG$hz?KoqA@O}aRJcZFZ&75Xu{zl+@Aaw-eGf`!P4gqXE
zk;^<OMWbStpPO5r)Cx(FF(7oPVa^@VzbTA`>modiL;*CJo9~d`-{I#wjpJm19yPCX
zx68T~3jIDq1mSw9VC$jqRyZAGP02%Cjwbk&>^S9%(1D*{k=MKHORT90oqo7n77+gt
zB#qF4AJ4?PXtbS9<P~vkv99^oM0H4?6X5GH4<Xfi!uDoCOeTWC;b4Rj>2V0(_own6
zUEFVaOock1RbEl1&O&-#z~?%bmc`0*HccvN0<TJgFYu8Y!t(+?m+;qL_s-PZ7J(cQ
zKqv0BziX>gV-e&ay^g`xL;9q6Z}wos9CFGLUJv2U!qK^FXchXrjb;9+cQb|<H$dlR
zm!77ZO-ViEhyXfm)AKRU`t}JeACA{pnc>B5BD@d6=W@Skc+EAnAk8N2{+WuT&)ek)
z9r*DRpu_$}hj?`la?pSdj-yMppq}TA@??c&z(X|=9fS`2`jdO+4aO`epL$JiS96JZ
z;Wq<92j1t}<LuRQM2|%wXS5I5^9I~e{63Ii*6HEqMNRqj2BAu48lYpcK5%A+>F@wr
zj{%^=NPF0G)9x1zau@&|bM@}UBR2O~@r^_G#P6jKMti~fd?i2ycp8iJbI_;wNrcZ3
zqyakj8f+K&UR9lOWYG(I+832;0O&MDH2G_x^4f|s+Lwh}^>`Q%I`HFAW`)|ip~{k?
zV*d)EN@ZO1Y!6r;cHMP58IE3TgS~AQs)tWC2heH%vBs8+?)zZH<!-nt!CGel=!mbL
zWiWkAm+8rOmbS_-U638nX^5`Jl=Epfkk7y5>^uEPakd+*50icdo#*>CV)lU6RAbFb
z?;Jpf*ld?;BIC4m`&TTxv(V;*1)x*2*~O7(sumSdex4kkHHn)Y(0MYFXCSB1KlMT(
zLLk(iS!(txSfBI46SArDzx7w`Sh$xolDTpKoqGBU{TJVDbEq*=*>%0tnzsOSKIfh_
zcNwF7$ocX!&mHTECU!ta>%|rAdG6mF%?&>;5ZJwlne9T>2Y&xb7CWaT6uPG^cN$;t
zd|<{&IYI}1o!=>U(UW)JyP3UIMg4=gb<GXXA$&&hHdsd3tuBnuKt;g(u?V1}{P*Ns
zPiPad<yY!Ko3H0sH#?E_fzS25(mwhw=0)NLF<(*BIQ^A!Ku2q{8XcfdX9+oOfKJHv
zYgO3|vgKmwHevst1cV}hj`QdKX0yzsyup07gbk7F*v&7<`oORA6|us9BRob0E}1hu
z<WtS9ss(fu#&dZF{`)ImJnl_~N6J2VXh0`yN}PCaTqdW+rj5^If1X4W(7DIyKUrRI
zs`Xh3W$9_{AMq3j9r*F{)lxt;5T(m&&294%w_qIA+kvbz+$ow7j(M*%NIjFyd-fuK
z_{%ti4t&1?ru1)pviuYCM=fvh)XiBM13(A&K5XuSH_^RAJCOxR0;(`}gbw`r6I+k3
zX=AD>o&470EA!G?-6jrMANX8UmP$Q=w@oVQvO6XMQ8xd5VHC_so#X5w?dNt_Ru##;
zA^$xa4d`4k_n=K@T@~LnlF4{BFwvoj(1E|t7GO0SOEKe47}`wu<M3zDG#^3--sd4R
z&3~&o=tJ!adKDV%&u@MP>r=m))c%`bbE90(@b<#*d`vAu2fpteS{HM+Lh^*~-_5ym
zF$CL;LFmByFfVgcee`%?vzDmfbLGbuA$x=lypOL(6-C-!e(-yP$|?+X#5)l{he1MA
z_W2)L29lu1E_DU3h4$OQI<G&Y9y;rzCXn6mJtaSHLZJ!Jd7eIjj?K6oZc6)oWMxMU
zjX~(Z_p9tMc2jnAwz{m8sV^dSn#2Im!Jl_aV41U>9p2ZO@FlsQ!iUg-?^nBHfOFUA
zyY%4W<NPR!!`qu}V4W|^JR-k$#%rG4Ea1n($YF(AK!+cFQR|oH=Y#5aDW<IaSQ#{+
z<2za;d@WagbG65XEKTabP7|R6->+3wQul{f<#(Xx4F-e`{Jt}2&8FH_RU_}_Rp%u}
zd^v2i6<KHadAj<Le)vwb1!f`OvXOBUgLo}M2fiNuk2Zob=d`@4o>>IUoa-F$1$5lf
zzA<PYa~4ORN%H$Lj_HsFbmY}X@C90HOf5Js<RzbQneMkB>jU2}+ls4lyq-&S0_7xD
zv05F1ID`(o&!h1pVS<joiG^*<SvNPVS}_P6`1`9|I_fj~Pj0_$h_-!7DORv#fzW}k
zC(}c~V*Op-K>^2C%#5dq1Uo_pe!fd(OH=l2=qLKn8D<6GI*(SGk#&Zzhg!aEoB5ru
z@b;+K{B99lFczT$UynelSEtqS^?4GO`$RdqI-_oY&b>KScdta(>tlEDIX0TJ>7)T2
z|F$BU8zk$Dp}6n5V}c*k@DMuiKCR5X1uo`BTD7g0-!8vO#Wj6G)*0Ss!Oe?pw^)4q
z^K1=Mt2yln2GFUk%Ph@S9mAV8wOfoS@$u6^=n%m^PjOzBY3_&!lc=HD{dGV`siKU~
zf%o}sbvcthU6rCMb+&J;;PiVuKxZ{NX|LnmyzrSf(~A9#N7_wIV4YE>Hae8^BNu%K
z|I{r=oJzz1I#;d2ETbQ^JL4aTu=eHrjM72q!28&T(QTgN*8WLXei+poZTy}Bp##4j
z%3k7n>vd1Cd%OFvh7$9+XtohqANc3Oo6&(~NkyIaAqVMt;7;vz+Xnr!@1>fj$k|I|
z4PBHG&UF@c9Li5dJX$s(YFd;@A2e?KkdM@XAI~&r)*pWC>r;Uo5rpf3I|+&<ml{{x
z74-~guAcR>zt4`)fuHa6Kc-Iwp5I#d_Vx8ZmPN+p6@>c*KYsEmLPTf+7Q+~>mS^u!
zU8=(ZI_YnvTgZp0=p+R1U9_daTd@ap46J2lQp_vbiZ7APZCnwF;sbP^;Abv(4IS&9
zy_#6#ON%X8X+U;7!}}CXhg?@Qx0WAU>~6hyY;KGNbUrh&`z<AQ@0l+e=+KusGS~w;
z>}Oukh*WM{w_XvFIOn7Lh7Zv36gm}uT~m_O|F22H{kf$}D<6^dfgguIz3y<A?x#mJ
z7wL^8TzPI*j?jU3-d!u>7qCyAxVoX$cPF5y*A39wxJEIzz5F)3{vI23D*Av(1kmX<
zd&jkJEcNaSN1kxSa%sor2V{NV&vn-H^MP-lrt%g}Nsr`<eG0}Qbl}hPVjb*(+UZB=
zRY47J+bmjHEJ6o<J^W2ar^(&BMSlJDc=VCBek4){e!mD0ik12!i+gNBtGHq6lzYt=
z;d<cCn$nlTmK2oK{CJ<mu`gqoCPD{(UFGS$uvOMBVgy}Rr4c&xu=@qt?n%>5jZ-3h
z7xpizJwXd;ANc*N<HIM`e8vH0K5==HZa?AsqX^dn|M&0yj&4SdsZx5-b-ov&LkXMf
zW73x9qYTgM4!j$od0jFb6bR1?_;Hwiz={_)^wu*APhxp$)}jdMc>&+|pLBL?J}T#}
zu76_CK9L@aY(h8}{Q8rBt1+wpaAAdLd3XD}z}#sJLI>XGcx-R#&V%RnJSI=^SE8(0
za0ngvap<F$o1xJ?g9qJDYY{pWu>Df}vS*#;m5f_Fo|r6ti}{YUGyHr%@rdb_O!jM-
zr)x?N4zQ*}>cIDXxUI8TT32u)$twBO-tCwQq{kuL>F-lruTaYtE|*3fUzE_vD@WJ|
zK9`;S&}a<p8mlC0@mBB;+e4%dd_7UN5p4RY?<t|@mN<m#fggwc)+{68qay`XHEwIB
zI$z%!Aavm0)3b^-S=1mCTf&r6EC{XNe6Ebpfq$QE*jb;~yMDzlQRCD0-#Hf%q~`_v
zJiS$;5d39f?re<Uw~;T29_dKug7*n|`i0J{#&@wQtAE6DFD8&3;au>2|El)%(Mq9u
zSdaU=+0^&GSfmd8zRdAwmb1nj=X-qT+SeEQYNY$`k=@_n&n=eEQ*Mco+>5E%3aT6(
zx|&;y(1G`v<t%t&i1OLVxx2|G-OkB`M(DuTbK`2@E{V*?&aW>`|0oJH87c!h5-({Y
z`5o_4M6A8?3;yowiwEdr`x=<UfBS6u!Mg2AzVQA`Q$1K`o1PCWSAtNk(thV(ND93j
zMguxuwhuBsQK8JtUr|hI2NG~A13EalYU$IHbC%K!fBlFw({}Ix9lQKwZxLZRwwPga
z@qiF@yrw#^K4UTSXGoldM77Lp)HTEJi=qLYT3%}T>g?$@8r=~VVXfQ;%7D&vr>)?I
zfNzRsGf$Zv=Eoc!pi`AVbSa#j)a`4$VWZEJuR~3>V14kZKl{;e8_ws=4Sx{Qa3V(o
zI%euJz2b!Kq5U&UwraVAY03y4_;qz4+<x|$LVqtatE=IX$FvLuLI-}n8(;PHKFvwh
zEM#f&pvt}Ib?-Z{KHr|UZ-+k1*qwB{WUOGcun-66<fP>BP_HcGtge!VwfH}w*8y}y
zm<*qV<9;VL(H5fKF8ws10CXM`)w?j3KS-31FC&&pm~ZH<0qaxrTxVzflG10H-3qzU
zYm=#QfDR@W*Dc}yTsy9(o$QLS437>%2Y&xjuo${4UU~n#_)_x>%iFq}e1H!3)@zbt
z{!5q49Jq;>C-`dc5IXSV&~U^D_cT>g`V*PQ*}uXH6HRZyI+t;EZ|PjHWYMR?m*dxF
zuR#Mk6FUK?a(Pkecc|sbwZ=AylmQ(rahH$B6VY43!=fe<_Va~!fX@4nbPJu2W#T+E
z1|h#qlBb)h!TRJWmC=05-XT{{eVRDr=CFwdbRPJ9T9YTtkL74Jv(lBmDWnYOFfqq2
zj%}Ylne03zL$j*Tj|b>Di8&I=5vn(rvba{-EPoGessihCPqOW2u09zfx1U5M?U!Fc
zXh7#n@PNq%Cg(`2*UQdH=IUu>K<C26D{8e$U&<P6entnSe_Ox<bc*X=yy`w>@Rm60
z`@}xW)Yqm;us&}F7<v7uxSS8Ma!boBCFy8D=hKhN?$hx>H{Pw~`Y9?>#V7+hg8UDk
zoTaaxo2yd0b+pLmg9qqnd|0!TcTou6`*_7K@c8RNQw3Nb>$cj(j~D7+IJ)Ki>b&7a
zga&lTLx%i9>>M)P6h3ZQ?AbIc13Hx4N|AWdOv>l3+<dfMU;Paa&<UonDeAvNjY_2M
zwJ!1(UTP`_>l602^ZU(Fu~s$DH<?|2;T>o|hi;rqTiNwu9?gKmX9Y~okTRg7Z7cV%
z=XFvCAF<0uQaax(9-w2m7#5%(C6Y$*K+y71BT+(A8CV}<{H#>T*zxt$Adj-=GGsT=
zfDTi@w#k6$bGPy3&WjhAjx?149a5$%DwnbpCG@wdPjV)?h428KFU+C$IBe8=vd;-k
zdYGDBZYl-qBW8PaqVmA`(@GKD)t#VvZ#1CusPbxRcFBX&cUm6BUVe_XQwDWhzR6Ek
z45Ub&ebo~c==}o^&>4TqzjNLMC1qE(K9oXd718ttSs(c80>Rd*M;+w+LwD*=xHFgb
zspAkj@aHi_j^BGVzL~jv$}IfXm#7GI0G+Og2MHW{r!qFRHVhgDoWdyponK52`D5`v
zl)h5SP~Ys6$L}pc)(1XUR#p5hYNhthn-*M0hKnDI;{YASY=)?7ysqOmjN`lHy1Cgp
zfDTQ8jEjS8_YFVIcn6Hhn*<6#$Bc3N<~PcBAEtk}GlmDCzV{X*>jQruiOTcODUOmv
zZ|MD~G=vWP^#zkyZ=@94<k14B-OptgG9x#H4t&3!v)>zQ)bo5_GE$zSmuwgy0_do=
zWce>YSsQOMdClb=TT;3C8d)FsTo>*{Xi>RKDnjqG;Sf6T&gJ>sH*x~@>WUse!pBka
zIm97!;C=Wn6**su{VDy2@-Pz<$~L0|==>kM_7EM}`Uh$_w#|-hTOFrkJ007$ZQHhO
z+qP|X($PJ4a3^Q<UuSd&RcqCtYVfYTpQ`%mTl=>U$H}O(OUfda_Q_wYEb66^{$r=A
zFJdZ$JHGB>c&F~6Luq=h{J%MuMnl-8L{}HZ;Tc$9e6c;2{g0i0`>gw5Xkbb-$vNx!
zqAczZJDL5*j@{HF2f40DOp5&y1@8^v5#|5b`S<nb<s+DJIOC(3MRt7@R~wDR|F!e)
z^UAy0`Zc1Qk523Z_xCv)XyvTze{=qKM?g%uc6PaVCCsX3X)H2Ru<So}N`_Wgpl@%6
z|KD|Ev;Wvpec#30ld&DHY@Q(FY4`z8`5!yc(f$QEc4-=jW+kv8WAi>|rT@(*$1KLR
zDgV2Gr75>Mx#2fL*?;U%f;T`k{2CXp`gEVoDpXxJ`;Q&zilN>GRS~LjP4L{Tdn<m*
z|JZQ^Cfru|)VHtC=oE#i2}wUI`ENe+9&_ZGm!zb)X}t*D*;%}0|FPqfLhiyCgl>v+
zA)!s7m=R(2KXzdLHTMi%mjrPRT+pmpthnghMNzf;A3Oj4T_oTDX?_RFXM#r5!zhEM
z1Tg-`PJUSPphuWsy4EvjBN4&v{ax|@=KSw{of|d7@YMMLxo^;ccD`UjN#Fn2`S*F*
z#I)DlY_C)NzqyRx|JeEWoRRWgzp2!BpzMTd(@%Sk_|@!x?EL$9N;r@Amqc0U`8OhU
zrj)v)DF4UKzyD9M1#P>lM%rDTF+qgNxu@LkivBm}e|P@%bppHu2mk~C0ssMk06+jB
z01yBO00aO600DpiKmZ^B5C8}O1ONg60e}EN03ZMm00;mC00IC3fB--MAOH{m2mk~C
z0ssMk06+jB01yBO00aO600DpiKmZ^B5C8}O1ONg60e}EN03ZMm00;mC00IC3fB--M
zAOH{m2mk~C0ssMk06+jB01yBO00aO600DpiKmZ^B5C8}O1ONg60e}EN03ZMm00;mC
z00IC3fB--MAOH{m2mk~C0ssMk06+jB01yBO00aO600DpiKmZ^B5C8}O1ONg60e}EN
z03ZMm00;mC00IC3fB--MAOH{m2mk~C0ssMk06+jB01yBO00aO600DpiKmZ^B5C8}O
z1ONg60e}EN03ZMm00;mC00IC3fB--MAOH{m2ml2BKN3hpdIfdcXim1Z&16IxX|@Fe
zPP{`wGOsSCja*B)nH~qPH2|Kn8eFgyFnqAZwpnaOP9U2(J$-wd!BXEZiVUJi(OcN#
zd3(VQB+0SpCDN8hN}ymy8NNL*5yEWcMCfb5onbDM7+D9~&st%Q8M3mZ+laknrC@4H
zH~Ij58u&bLH235-vjnHSC`pzOM@b)>18<FMa;V3t$-8{+c-+X#61g}RJ9+x8K@>nV
znT5*DZA{zm!mWtG6_4hDrnCWU;>5fww-de6XR*PZSp6_ozwr!aW$7N4g#j{s=_hbQ
zEYSd8tuRy(F(fN#DeT_y931>znhXl7`4aBx{e%DIlyBPQ^OJ!`U-<THCf8(Ww`frj
z=<hPKr1!X>n#A4?4NB}|^JAjdhT9ni64kGie8`sKcGQOJIQy7u7!66ZiYb|@J)|kc
z6pQh~HtZ>XA!jgnARJw%if)8$DU#g9`KdQ47Et{7gm-_Oh)~r9|G5{{Cg>n)N(vaV
z9VyQ{Wfirlij6JltAWTa_0HD`uvMu_4V{US6`6hY7B!Uz$SC)#oA8^jfJs>;L<&pa
z?lQkp(5=PzaomsR6WLx|d@Qc#kVS90jKNT6zMS`8xW7aAFDIvW-d=e;cf6i}zP91M
zRWes$LsIc49#iLFu}XE?aK;G4Ee~VP2Z1M%|M~E<bX*H0kV0m^3KjZeC%w3sc*e&~
zrf#mb?7|9&s0o|M*Y$b>6wLE8Jbty0yP1I0-U>Va^I(}-9Q^wwq(gRnbnotVzxjDu
z>%S<)4?3x~b0DO{j&E7_wq!P}%jzngb4ZO&;mdjMEIG-fW5Ls%`^9RvO#RYP&++il
zjOnXmuA;r}{rB(Z%~r14gr3`aaPLB8)tBk&^>j$K`@!0zN?BJ93_kiy7ood{{82P+
zv=5eNrY-B5#wEg_zRUVPMC$6yxs>WPO!nyz?nsVWrG#r;*h#b2IlSSjnlv_!#L-AN
zfi%aTx-5pT%vtME+3)^Fg2vqS(+N-K!ZpOD8xwe*?#=1Yhl4$8m*m#&1*6uXK~>hb
zlRI9gEZqu^+n57JmIadNwA=JQ3-&m>3!PueH4oyYYi9Bp)#aFLhPTFS(>=|XMtTD`
zkeK&Qp2JrMe;;;tZ(SpEXJgnl;Ko*r@~<wR5}p=i^MIl8;H?Eq%@?qz2m1_h*S|Wv
zlRu~U8$}{aG`Uzlff^PAuI%dOYc$g;U1Ti@R;>&%OrnD0T1@m;xVf4?_6$54nQXP=
zn)q-VO;5o>bK@b?Ee%iBD9v5*rQ^?IRt!s@tY4;oXf#rnbG%COWm44)5Gqg<J7K~^
zXj=n;4Z@~Dxe{}^N*5!efvMP>g$kf>53uZEP5I%uG}SVlOm4hCELn1fM7jSoY}h*0
zAIach<Ghz))Zz_js-+?yy(dGX5p3Gyy@%QErTB%+FEWKv3`rneaV|xou3xu9NWkYV
z>jpX*vfzxmxCA$~Yhu?_ihWd0M>&4_n`@v@j3=Woou|2p&i|%=s@t!sIe7RLgh1Hb
zAutQftl>nkkPh6<XAm|7iQp%MO;b7&Y+E65nl;71Vpi49FhYTBX(&9-U$k2l@$)t*
z0i`7BgClW;FlJ4e>PO_d(RB-i$h-vm7Hs`WLMx2HAC&O~pzIs5DAEGy`H}6n<Z+eg
zImpsyW^y!M5CN&Mmi=(b<IycmBZD_wcfwUq?xUuJ^A1P&vum@^FK+yI>MZvK-ChUb
zNiRPqSY@U+OInXyZ^a|a{+x|WxSn!MPABsKXEO9%>?m>L3x=+$mnM1mp>(d(A=5~5
zbzUoymSm=S2`AGiO^l+mvvTBrc>m}TWUui*9neWsbg8KyP1pz@Q~`Ty_mAgmgQd)5
zd-pQ3UjKbQNd80T87BQTMn)euoPt46avP+7SX)YI%%*<I_6N1oNpEoO)Jq;PkhS0R
zJ9=SIivuJ%qmq`N2es>+5>u4e#zbyilz!J7v%u?+$3gogq$-UHy!6I2AKWz3MAH;#
z94OW{Jj^DEUP;Bdpd@d;>{K?8lu6iRTFP0{)b4La+|}u%F$O1)GTkXf#om4=6HP-!
zoR8^?2F39v!|kJ6bxXEjtIm!$5MIo$H#ivF7JF~bKTtB6dpXXc({iVcOp1&wvp({B
zb<^8Yc1`8bFF_8W2>ukT;F(&U=x(kJZ`8>F955ODZMCj(0UYm{dnU%qh6RVfTUA!q
z$#XM0ju0+4>Ow-enZJ%jI*F#i+q}nN5i}VD$@?Q%B$O3FT;J8}g?J+35YR7&P>*R+
zD8r?^z*R)68ikUUaN-QISMr1SUw@{MUVMR0sz^dL;pBzYm&=7W^(9B-uggl-T`qO`
zmGfHPPbzsklU2%9|1t`?y8sJFcBV^6i1MtAO^TV~_Fwp^Y1?(4sdxaXRTKOhh8@<8
ztgy+F5{}#Gp=yIU?>BIw^fPxDijae`F_m1{8v1RXF`|j!Ruc<MAUv<}^Woj4aqH)6
zcRhJ#?^HSA=pf>yl9J#02M~`1`WW$~52&KgFge0A=ZWB*s&$n-4zS5!Q~gg#k+dN5
z&A<e~kl)8GkYojn1SK*cKMTBffZKKpmqzq(Jr8XJfHTGPaPhoDqm|arF0(L|^P5Y7
zFYo-#&$q#<0(%SG%%CRIoM$JmDvitIFB&9|adOC|b?%CDweRTzmv|h1<1aJgRR73a
z+3yR7Rz(a-zWkc}t)tw1-NPV)WZ=P9gWPEZn`3ZUaiQ|Doq=Ol+{(nNw8}Py?~KLT
zor&|*#2#3(Qj2QB^s~qDSQa{N6DI!J4*cYNdqTL8nX^=i{X#3gk~{OE;x6t+U9psq
z1x8(7bNUN4@MSHMV+beu@@iHHsrpG_cskfx+;(j2s+|qZ#=OWPMf=4opUzlDDI}79
zGWL&yahtA%x*3LJKkN$gy9HaCUALd{&AwZ7)Z*FHvcwH-h?vEYUP3CXsq~Q8Z<&P4
z{_(iz*+?r)Y@8Y<g4KH=UDQgZ4)U?we^!cz3#dBlK{1k(`*8GF(#$k>K~$|vx-mDI
zi~VH!YgS!U{@RB^JaQA%sP+6~5<~WCqIJ{7I58`jtV1fUe*FVBaECPoM@g}(<`~g4
z{gaip?uYi|ANw5sp2Hy5bHvH|kCv1JFvShC3<GWV$Dk^~J15EZ9+monCefJiOSoGn
zyKHUJRXcG3%~q%iAy%rwD)sJ3ICa<<8l4yw;VW=?Dm`3OgKVdJ+$un4`nQ__<m!$<
zs_QouQ{x37%Qh6iP&KvO;;=Q~5LUZ5tiW1fBM0N?KJu{jO%wBB;CmSodf1t5;1YSs
zc)khxu(L7O@>gbiKYhx~uQgE{kS>&xvT72TA}yesn`Y+2L<P&xPgzl0q4rcAl%>V2
z-CZo+8^i}&z@)ws#;1p@sjv$uOk2{RZ<OJ0q`DZ#)8mGr8WL7xj9n67j5I+Z)(z%*
z@-bY(jhY%(enI=ic?1fFC@crnztXWK!O*z7UMr&t2PbtE*E)<r)mRX_ec-eC(D>=u
z>`o5Zg5QzsoTmb7uY%Rxk+B6>65?Y>F`<sK&9QQGqfs9IiMiuZ3Dd#C{O8R^*F59`
zf|Vq$x3WJUKkX~O17mCCqtpAmSM-nCOct`dU`F6A5k6`WXgtUo*&YPAJtza#&VchU
z{@KsyY`Sc4Bk7#RTF?XkXeTcsl~Gz?_r7N)?1NqtVTV4tL~J2y5yY{C{a8pYX+BEt
zHf81T|8)EIaV2O8tlZl-U;8-ycw29s>|d#@n~vBGtxnK6zwv39$g0MeNn4l2de{@-
z@t}V-*$tftwWJA!tl`+CQ~ZTNrBbNJ^galG`o-Op&SJRr<9@s09o%yRR(HGpIPAUy
zcP*#UDDe{{;&hURLYiQgPQLY!>`$fouFGUqw-eDZk2?I!&I-M$KR$Dh6CcHs`^VVs
zS-O<1mMc!};0AGBrLCoaQS@A^@OQF%KM7IBbM<M%@KI}{dZYUJbG|@Su2inA^VK5<
zwZ`g{;THaGJw8Mtd2V&;6fEpE%ZRQa<T1!Ix@$M1P>;cC!LjBSxx1eS)ws*JE|dLo
zR_%|qWw{qOYZuMgZ+@H9-kht6wbLs0mu}aQL8;jH$ya}i-OM_fR_5(b;>OUVNR|_o
zQP^EWCRAK#)Jd5h<*SsBQwyFimM;y{P-xt0(+r-Z(#g7w@E>756B?gj2^l)EgyuYv
z!(3_V9Xmxi^1sJg>)m3q+mbJYKTJO!^(7<c<ioqKbLFJxA~3Gsy!PH{l5<8TRSa8Y
z&bT9QHf{X7yk+&ek$eAoH2-dA&|A=DUHP`_oX~5ms*QV<scr8KX;xU?J)+(y5)gGQ
z^EVh;aUYjqK55<+Ki7Dso3S{HM9=K=3oes~=c_d$O<GXUpzA~U_0Nh*_i;}{tqVyy
zl1fIL=|p63HH#7k#plfgwkclJ7Lq3TD_`sj0_<qq5v4aKY#|h=z5+Tk)RO<9)P^xM
zuN}PXgD#%Zu7r_$m&nOURPm4%$o?;jtNma*B!_!UfPqsY5r{nd)ksVGZ?HGwq39H!
zE#u*QXOPeJ{Z%MFFYVX6bU&MEQnbtfyiUiFt==Q@QiM{e5CTO8me69TQAgznt|LPU
zs->7?a7J;e?B`<*KdH^?eqJY3#G|`F)PcS#L7^Y`wh%mw2tZ0PuKG$XN^4j<R3foc
z;w=UUS2{cQ)&p#z&~-wsZ|D!toLxukD3~mEVphQIX>xPBi1%$*sE&+Da8i&;6^8w}
z=(v-8Ivx6cXO&=hlMiN7SK9Q^brSNz{LS?KhLBUP=x9`+%^(?v74T07tbr<zJDP=8
z5H<AqIN<@<`x9XV%QD4i393(Ie6p+4L6x*|5qTk%@=&UxX0Fr`D)tmSSl3jpCdfIe
z?F66Qt>2a-bm*N5Wa?bHCKNi5Sh=2b9Mi|sa~%`N^w5&<4plU9u5zbRii<W@;gaJs
zk(80`Y~DmeLDSMf9T-@7*-K2_tX!@w?jGfX(UE(!!>moloG~_3R5*EP=FoG}5he&-
z_BJKENbeKgV4apf`RcQ9TA8EFe|pz%Nd?m4SX~(UctyzPaR~J$QR$}T?{v^!n6p#&
z?JOXsqM({X`11&}G^PNzYo}?`g=xQ$kz;piZd{>A!J##3o}Fh;YfiT<_t3V+L?D6m
zZy-InW7H1ySO@Saq$TR_ii!Vzh_fvmGp%GW8FQtN@;Ye-TjTN5qbl|}hSXHP5qz3x
zb|>rQM(TB%EM`t|ZqjfW)1!)T?lYueQTZ)aXTt;*IpGh|-$CA239k$7h3QIbbgv2F
zu7>--noufu8<1zJy9W29i=0O>ng!$`w_8anIexP{k|%yHG_=s<MAq%$CMexZXLNPp
zKYn)C<@NV(gEnVZLSLZe)+<$^a)DzsuE6?Te7|EgqFl?A1;osBFuY0{6bfO7kj(R-
zf9DE^o0TM1YyvpP+IsD3e4@fWL^x#ZDajPnJOklm)USRJ?7wZ@iY`SW6|qFc^Ycml
zORJ$&)=X*rj#`4}6x8C-XIlkqepYYlo9edpjw+K8Ng{1*#30L#DaiYtz$2)ujo@xQ
zh7pq#&5D-0@J(W^bH<vuXvnnWg<b(W5PQ%@%*))210j3qD4D=PGCS&iaH*XjYk0H7
zFlAfVW>H6JiiWOOnav@Y#vYvvg0}Z=#d)os-t3X9c1`VGv6$w|a7qOZv7t*xq-}8V
z1l(a+j<nx>5>>)<#REQj*u-p(^oy&Y7gSu1@^Wu}p?+vLQqFvPAH<NG#()2YpW=g&
zN-6l@;Eg^>@DN8;h-a|-m7y#Z@)yU{l$o<!Ae*8EH=%@xXDJ*(^}q#*dn3tK9HYVY
z!pUkS{FI{m9B3BVA&N6U$K*_~qok6@!5I*NpJN_IqM#NfBm)zkOIT!$QJh2ldO@q3
zX!RZ7u7nH~>i%m>SRZ|xcC$mR?&uWpm*cGT(Y9r5>>GDkE^hKuAdT-Cp-$2AOBC1F
zT7WvWuhr`-Acs!vT*}~UxT$D4-+hHcMKaJ|^Nj#&@)?fa;d7AnL1m(FClhX+X0Q3%
zWzVN=6_ma0+%>bsxVlZCB~@X!RXMtpGI&W!DWj6r)@)f)s3{^)P2AD3q&*B2?mL@h
zM)Qn+-CR{XQ)gX>C_)Q?J7#<)qaF)g9x2S6xXvXAdtdE4QgKN_PhnsbH0|76TZD))
zJPKSUx|vOM>PpE1H}LaC+R3z}T@u;4OIViZ%%;Fsew-dpUNaMDyJk@ih)D^LW`MPj
z2vo=%?&&vesy-YZ7r&a^BJmSiv0*??iTqwx`Np~El+ver_fon7rSv}bUada~3zmtf
z+ZgFJs$bgvxF@;Iys#m}lrez@Pw+V05Gf0aQOI}~&>|;(Zkq5pyfMy1mx+zMZc%Bk
zaoucvlM3Vm7mPc%rU68|R-c5@B&I;()bJ#25;V1fD}0B6dt*EEmd=yr@{WpPU#H*@
z;dy(S|F>dLw>Uf+@E2y_Pdf7`DUdF#R}YIQMTjq044`YzWV9!SylGRZIFq_w3`Td<
zWm~W%J@~(2Tq9*epUXh57UXgv?=&V)a@^0SYOFFy5p5=W3^2d~NQJw>{-YFd3eX<|
zds(FvT}E>ZeRuSMD8XMK-NcF4y6OJCU3PQX=xT(03w}UBqSVlJLv#c`0yHiLeYw}g
zk$*#Te>Ki})`o3N<c|~W-C}3G73ouB@9hs74t>PI`651k=%JFLJ^iqFU-uh>^Xm2c
zUF*s`d3+dR%gTL(i^b2jK?1rHTDwM2LO^xq&ANbDNX&AlCd&EcjV;{g8!Wd`KCKY`
z1w()*d`n%^SD$RfFV^1+lI?T5W%gYS)EQf=2-DV!y~d{>D|NIh9fz1F@eTj@XO_DV
z)K>6M_}3L4{@9x_(QaxSco!Exg_%QWoFQ<}Oi?791A?p`z5_ap1A?{>$@?UC7$i8>
z+j%N17<nF~ojd{7(*1*&wNV)))`ecR49qi-)2%590fu}ZJ|j~$V!fH}AWZUFsGIhx
zuqmDJC(pTFt0L8ua8Z=w!?}$~U2UY_XIW@FJLUfIT0Y93X8*$3w+%S#C(Air7B#kM
zI}e7uEf*B0-ot*iS)-U|d=A-%N?s$V?m&Cj6uYGOo<Kv0b88EhJpmZb_`_IN<hXCf
zyQ!vi%KmS^zS*}3bnFKL!4A5ZF2y!qpcxGprd7C48KSdL!~4K%_P?O@M?v8R7%qXG
z=o4GXQyY6W;9pkn@amJ2x5kP`8+qtktjBDJ%P#}YS%uJ6{yJJvJ{x<<Yqs|fboZaa
z%tx(+59X=CKYb!q?}z%v;67(Tx}<n{Y4*OteY&98=!@;>a@#DK{t}1DfqLkB@5|Nk
z<SCJS3<>Zubi3OAtUmo<P+Zd8sQBSy3b{YCOQ)swa?DYF?PS+5{Y~I`6t&p^`hPdc
z+u7ER8)8VKrMqJw;i0J`DgSITS7okPr*Wg<OtqjTM7X22<#rQ+0)yJLBs*PGWleZ_
z!M+6OzO_^rYM}Uace}RkBCX=KcXqRV;lIBwxz9}hS>{``hn0F@xH6ydTGSs}e}79L
z*{AH>;qu#qx?()cbw;dtokVu_g5|Y7S?n^aSG8SP_ZkHXKCi4E90&Gsb$a_2xs599
z(F=cFakd`ZQoJ<%X4>W7zdz!Mgv1=@4fp(dhTr|@9P7!|ll^+@`0~C#=eH}BoY=y1
z=v!nwShvfVI<=a}-ciY*tr<ool3R%G@Wd56KjKg0+y&Vs5QzAex7vN_rkEk<r_2ie
zbuYi77c}`5YS->woZ8F0+5L2KaB@5d!GEMJ;<fON6E!<LeWpL0zIMeptzP$=cPfBo
z7xUX5vn=1)ALq3;Yq+rk3Vy9$>F_d*qL}dmv8D2I)Ti=mt+iGWa+D7t1_)ED<*w%7
z@yYysjGTH$v_U<{$2XmJb|{eBX^8zgxyL9qPtFUA^TrydJM8^U^P^6N^l(t5!MlhQ
z>Z4A4-o-!Gg=RZ?I5e{`=3btrz8<^Thc24Na-95V9yL+}M~0>J&*jOAby^7QgTy=g
z>+1P*!t!7iI5B>GI!h1j&D&cx{yV2B;*WuIS7k3Wxy(WF=l1&PzCS+iGU*^3#*f);
zqF47Ee{QVD@6;-%t&*h|QfzpkmBgN!4fqJf;NFR0pF|NT=byi%qeo+)qG(N0)MH}c
zX&ed<V0RDhkU<QF>elQXW^B~SbG`{(lB}W%AtaL26>o$zVnQ)`_fHw42hy}~g}4Qi
zuo_m2)v1R|Ke)1Lt7yU41Pg{6POV(QM0VU|O$weg@vpbn&{VCv%#dBY??*S>Q0DVR
zVjmdOj@``ead%9w=#8f~pca4&hU7=@r*pwj8FF^mL$yAw3&YV!D&7Y@W(ej<4(9`O
z8pLr6D<aW2DuyUve2A5|+Au<Y!7fNPL`-&Ce?G2H6||ug5|2LLnx-^tCQTQVzs|bw
zq~KwYwLDt4;9M`H1e=hVR*5`7OK?$BvgNXVxl7O}d_ov){~5)Ct=uk4ZtD@0%jSkG
zm4(OCx*96C&uv0Im3w*1tf;k1dtRZpJiM&(mK)f3-C!BAk@TG0s9>}3;Hg`&uDtep
zc6o{M<k@y0iPA#w{(@M4EZO&5oRz71O33viQpK_9SW9Fb1LcoBpwR5kX*~ZxC)gp5
zh-`Ut9?CTreP_~Iq;{Juc*hnlT#yv8{uzgtgNp7T;*wNZur5p=cpR^I8S6R66nqJv
z43|J5J1OtBUxX6_Dci$$ZYr0610<D%kS7hrEcBBAsmR{}7Pp;%&>^fOZc>3uxFW(7
zu^cW%{9^M_!h1mkWt@gl5~kNLX<SM-jyuLsNYSjO8c!<!nMML`vK)p9C3b@Ce2Z%J
zdR9Z4A;8e5UBbRAKwEV207q0qK21Jw!A1Lrig~bY6?#du6yL;CI6Pr!`bLq1(YQ>B
zROXJ+M22)=3Z?~5uQ~pPAj)Jhp(IM_&!l)>(0GT(I*Wy$&t+B7IXgAe%S_puBH2?z
z@PtU8TY~7zHt$rR9**TrjMYw>liP2ii!Jfk&qbs<3WUj`71GBzZZtPVAvw>%?G%dV
zws|_^giKY%RY-$+lQ2RF!?dd+4P8Ht(rL#<>taa9RJz3LJ<hBBQpk>&|1N-?0K*0^
z@J?|SD4NSh^S=QfF)rpR$IudtE1zG$CNmq*CynP-U;jPfYhCC%%@Spj1KBPpgDs4w
zTzLSBI8cKY)K6H3UKFDq@i*X{L?I7R5d~U)xTW^CkPxr_ZIQ9KMHs=7asf+jat@|4
zM3e6q5mt;QZLggMq151#kl7MtSrPd+7<{4l{lag|klZQkhYfiEB{4bV_z`b;B<>|~
zdz(LfaOD02Cw<7Je!Dt5L*clByuQ<~@?dkm;-yjcWJRR%9qT-^zERS1th@--+Hupt
zt-*E13N~1DF}+3${U^RV@`EO5;qur<iX9OoE@3M0d6p!_`OF!OG7S_yDrz#x1cPl+
z9aeO7JM#}T@Hp}rR11)&;K~$IyJk(a#norEmHdyMU>bvVtO5xGT|dSIQ(!4GRd6$W
z9@ckwr+pyX$9F|vbX%?}u96ndk{386J-SnA-gU8uL&@>j=7b#+J~Na}T5!1fi~j6}
zJx@*HP0q9*BQM!&_W7HAVgbc;9}Vp-!P2%((!r&oKe*q74U1tB;9_b)9pc;7Yzyr^
zK5aN>L2gH>_pP#O6F$C;3p<Z$+UkAH-ZPENoRZyLFOhy3wgpbuMyiLIsO(LER;&=M
z$dPV@YG4O6pw_YeHXty#j`Gh=YhZWg3I7A%_HvK^Otc=V?yKk~@A$^ln3vGVx&p4^
z17#-P9h1gZ$L9I+GTh>Gi@;Qt4qDY5dlqt>;Hr+<SvWcTTpD?-t{x=5zx6$DD6nIB
z7eknQu|g_Su8H>py@8xcI=E0fC!?smRwNolB|`R)w)pP?rHnO|d6tAK8&2pZW|)`)
zH3{m7hLm%;LdIVdCv~j=3*(Aw78Y!3Nn|U?6?^dzd~Ijv*Sj{OrCAjv2i$0NZ|7|$
zW$$kA=feQc)GPhxq}_o6Gc}pRLRR`>HX<x&kxF75f?_3b8NbCEFLDrbB_7l~C#tM)
zJERH|;)W427GUvCk94RanR;ozg=)nTkPAifLl)=Sc&c<w%&{c->Pkb!vX^2eVAar$
zSFq`@C)gi%o1}y0%(;zJt{!i;LEYbYlJjNCtRKXMHB}&%XFkeT^(gNoBd&gIQ{;x;
z2u)**zKPqjh&fYh_`bE4v25m{&hqH-A7BcueI%YJj=DdU{5<bG<siE#%az~kU5k}5
z2ifHdO2{oXLfEh&>TLtnv}#y(As}%L#Gjkft@~U(C$HNY4B)fsSM4SOY5%5j2@CXo
zN^Wi0W1@PS4ROw_N=99}MjwIE+y4CKdCSkfOq}~PN_US}_paS>{`!;I+um9V+TUz-
zBrtGa5|HYSIlO!D($iak3RPsPhZ<eLw@VsaZU>Zc!#2-)R=X++W?sBHUT~AKDhg^F
zw<@{RhN(-DRdB6?DOKFYG*fWXvMRb*RIf{;bbXGKm~XMMQHy`smev#q%c+x>3(GB$
z7YWD9GKW?+&pWth$L;#0t8#lo0;d^uH}~S)671EP(Hgbl!<>>bnGx5mc8c+UzkJEg
zd_&`=b?(B}9qqMDy{kHc>fBr1Hk{)ZZ5R677VSk*W6k_C-FvvWs#hXhWxuNSpc<mO
zojRhpC|Rm^YD51d*{@0aeG_ZBup9WpPS)QPqzjK0bcXwPR)7s`$q!#fF^cT4y2yzX
zJE~LisCj>Jsww1)b1aM55}Y<hameg`#$Ri8w1c!&PKtwg896@9FIE-q2#!u3o@d;Q
zKTG+e^x1L2>VcHB2n@t!tH^B}WY@sLxfJ*0p&|BAk?fR#a4ye3A%^fyt-m22P2k{9
zZFq&6!{)}A&w>pQ%QU6Y=j@t({2=Vl&jCIk5iusLc@DH(7ySUaZgN8SEAo8P=lpX?
zNx=2zQl?#J9!^=Eon14!rsd&ex$zHmTs<T5KI=4b4XtLvXdAE<X6tt3+7nFMM51uD
z$6u<rHSIzfYMm*iK2A-d>tLVJE>r`5QSHq%b$mjjN*04{%gQ?RmV<Muu8VbyjJ_Az
zy<DBdyY}eyd=lUL2rwV|g&!h<2wPh)!0ws|xTHW)FNYPl)xsYMQiY!NzxYbP-8QDv
zEgcIO(LzkW6_5j8k-Mz6?-gyUHyP5Qgp@$*N!{N5z*ZGhr*2<!k4CYKiSW(}lY{97
zKyGXP)sX3^sI*u}kUNZjl+yi6XEkAM<cJ|Z{8LjSLA}9jMWrVC`lW{LJ@FUggip~K
z)$YkVBBJ>t2k-0X!b<7FOZ$SkrK&qyJegPiQ<NC1NzPWP%_qOj{?c}C?Ipp!UDRYw
zSUFirMEKanu^v@jKy(95!q~3mm>9hxA4x+ZqrGa!*49Q*2bN0P&>0_cglcl16s;NQ
zcT5kD#Y$G1ZBc989En(v<9>emn*6TQ@X5z|%DD-4D(-nn{6q)TCJEC-KP33-*&*(`
zNoXD0`%cOAsOn&UNPSdrsPMsXL69bY^pa@yVq#nSR(lS0dG)#Uda`bYAtmyA`cTyC
zRA+DWczVNzG`xzJZ@L#NZkh11_G=+&PK4ihJGpL|Oi9wN9>g)3RJ8<dvTjvmgvPGL
zBAp3^!bTgMSzhF?b;+bTu@SO)Y25S<c`|DwZUfQgc<hC^bK<}(r`5%g67qpKGb2<<
z>k__7^0u(1_M)nM;s|pVhbntg$-HSc-SS00QtiNgB@u~1xAeud6;4Ug<?&0_(j6^p
zg0o0C#B)}xk5#xgh|9-QjdG-lgGS>AH6#w%i&0yStqD5t2Q?ZBE>yqN7}4dUfWEAK
zdN{TnBJ*ynI1}z3#Bj%92oyCVaV%|QM14C^kf46}L@L4?N~M9jg(8!m4+#2jA+BRu
zgk6Uc;9%OQ5bmG(A0>#ev^gGmexgsHz&>s<0YpC_Ik67x#XyOCqVx$RI&<aIn?aZ>
zg(m_{2T;>`x|3q*4Q+c`-l!&Z_12DF4-S?w*E)k+FUP?2G`!wGn$&CC{XW5gHHaHd
zuphzx8F{2=*=`b|`8E5Z>7fdcn>QI>6xdidS2KjIjUvE6z;K#>e*#fN;uNzPZ3H5(
zo$_!HAmkBLzFD*`I3`zij)tD2e!Y2zqdZSEh&{-P#P=xzJ4DXY3g^xtA^#cDJU~%K
zG7$TnBjM4|0DcW^%%==YMmH~yU%t)3_A|B3YkQe(ESWvvtt&BN(yZtW18V_=FfCeQ
zunla86E^g4r;a(r9#@K@?^2#z$F&+NWGO`(7<%ewKAdL0-XK+pG3PN1Wg2mEJ%)66
zOme@nZbrjgzY1H435kTXa62>^o7n;a))MZaO0$y@8eiLTlxtPPf{`5m?!a~Gv4I6Y
z%=oXR1H}i<ZjR$R37ok`roXWeSXXio5X5rT9-Y9ZH_^tmAWEPkYVqs;T#2js2|Iu#
z;q<iLxQjU6bN-Yw;2leV!hd-qd~oXhsq-crP!K;rN2uZe9N2(LV$@MXg*9~PKZKWF
zP_)JA1l<ut269;+?O#WZlOAmSu$>R-Mp!R8B_?)9T*P36DG^|gsSe$vyy2pZYNW9M
za}jwgj@T}O(g+bCxD5^C&qbx}wt}|tTa)A+lW*P43&uh22|{5}dCId1^xRUwJ|@%D
zP}oIhRQ4~{&ql_Uj+KvLC9ee@SsJ;w0&+o`%PNLD4uKxO=dvSdaNyF#MO3Kqa!@of
zW28Omdr-n!!36v)cE?~gF?^CNaQXN`h|5nn8a(i-ONP*1etx2ZR*InJ-~QK6CNJ;i
z-_6~=BIf2d70{T})ufo`(fC(YYPANtodY}>EQ_SrMvfdEZ$kEeV<Qq9(1-C;GJbcs
z#q7T!LZxQo*JJ~~{NG!Lv^QN2+ED%(wHa7Bx(8{SoF$qp1kE`8iA(_wZadVniVynw
z8*fb5VlSyO;yx}F*4)~9Q9!K`GHsgLxJtlcpZ?s~c^i4paJy@(WMbMmc5+Mnz2*D(
z-ErLND_1)@)sVodTR*2&Y(JY_<4($u&S_QV)9r&<IP{BUrpwHg>Adl~{_X1761A=I
zC5R&QMg4o^w4b{X^anD%t5?6$z_YM`A+PjM46B$!ogK{{(`Rw-{W9K|0;(@dbP$`g
z`^ci&%#ha9%ELD?3Gf=SF9|$Wc$zWsbK$hUdSRDzkU?CgxNce0iEMz|v(+<9V)xs@
z_--a)BNkA?tOB%ApEjG?0t1@FQLxuG#vnaoivsqrSfM&5qR$D#XCG$g;AfSh++AZF
z#DaYTCoiHA0s6R0dnmBHN5U;=;cV70{k|##hfEhbEp&^g+5|7!PajN2`WEvgs<_Id
zE8rD%AP#~K2|m4##*b;WgFUxNH{9yR$9bHgX0b|2uc3l9t_fCYkl-aZak_fyKZhht
zVq8PnsSjn$ABaZ-%-g{PKqv-7Nm^<kl@y2lu{mzkwe$vPg1>n0odg@RRPc-g+|NyL
zCxSuvZ1P6NvBN~x<&cE8Q$HBCmyf;7bkKUzd_xElzlV(wo<XkC@^Oe$<*xkVar$->
z4eFI(n;jc*Jqk~U3CGgj8=}Ey)qs!%9w{>eYw{h!HQ7TV-SX+bu-MxTP7h+q7Zz;_
z>^t6QQI4aAHSf#O0wEcmyFYQ>u}RxyvOV8GhwZpmhdI-m9wITRPJJH<_s#oXczZHF
zKAvC5y1r+O){3`ugU2OGfcHK7pMS;np5?j1XueIL^-UT+B$p1fOCHMW)Sygr%5-lx
zKT-<tBBdoJ4Zhfvr*sm_w7XuMicbW@hlE#o3;|1Rk9hCZx-kiwW`szt+OOlLi>L|V
z;oGPrY#tUPN-NlxdzSlD>_+cd_H5b6@4XmOZdHCfd~o2~byM1}g<7_z*@3HNKQQZ-
zqShD`O{gSQnlc(=!o^UeYJjp`=@xClZi=9V^(ws<<vGCGe$hm?N^+F}AsA=0<Fwl9
zni!A+(J%8nKdPu0C2&9~zmejGyHS7dhjZeOo5!x#4+p3Vcp(3oi<A~p<&kAp^N4iA
z@!p0wq<!R=Uu<?pwgEjU@0HR%dpN<mX;Am?(g;;|sRza_i;yfj<;HFhu7g$bX28j5
zp_UzJKyG*BYIbqxd!f<%h5YQ6s<UsctC8(^i!r47>vX4Q#yW$|$!4|+TKL#?JSCED
zQuz3Fs^jM*6G|WT4J#@0ax%r0d}Mq=(X$@~<uNnNAR=#|@ii4I2Bf<WvYUJlIJ0wm
z-IC_y#DzhB<z(xumJY4dh?;W=)wKFrl%DiRmVm=Ld9DiQ#h*@#@@h2B>oE^QEBY~t
z`i81~NB^9ntoes8IqQ6@L_Z}5P1~Py^JcUGS-(Kky3+~gv=vB~U312)R+SaFar;@7
z0%+h=)aqW;NabDwbonb~xcv{lNh9_Hb9GK|$4FzeP(~#jwyaZu?Q41xBxto7rrf`x
zev|DDm&Tim*)b$;>)&R~KP9n~N*a6-EeAqi1}<;Kn@QV1JbIDbW9h(?XP{o1MRoRD
z{b6NqWa(4R=D1pvpqEWfs2FuZ#EnHq&-bB8t)fs)<F3#~JgX@C(Gk%xh8zjM*I1FE
zDz~~ZVMaN1!L*<lBCbw5iMS#$ZY65L5xdQW<10gDI7Pfi=tbJx%uU2N%F<7au#N`Y
zEX&W%WEK&3r1)$nk|3gtZ{eFDf{fZVVSX&jWL#3w%_u4Pldj8IEcBREIkSu`tmr5h
z?Obd(pt(!F*=rgRC%&mjx$;aKOEp0;dFqvBo*KKIh5e0*R$Sgx=G2IBIz_6m(f3yd
z`C*wb3h7~&V)EG)B8_{o({?b*y$H&K*l)%w5;oMX#Kn5^z|wS6@#e6ZvpP{1<=usA
zA~u>gVe@u)vC!a;{5A0QU(02qH(le38u<%vYuOwc%b$NynLn^=A~-HL&~P`cmmeiN
z$%jYQeTOVeJ<USIUv!%J;!+}f4s%A+a(jSd^|Kf#L6l&D^LGvAr|G~%m<APpYeIz`
z#S{r|{uD%WY(miXN4%$%P;5%(5V;pDn8O%C8b(A3Zcz-T<et61pr<xp?LU5XWDX1D
zhtr8h(9v|2Fz<e{E75{(J^)T#>A&dD&k{9XgSRQC>n~+^EWtUN0O^e|<5&jrS|t}P
zY+>`K)TRxtH}%7UP=`>O1wxK8!`@kA5#&Yvz(#m%<PJNEaF7Rku0k;AAYvrSDG*}K
zF7-S<Np`x$S@3>)fi@Dy&56sG%frKz(AjXUH}Ay=xMnWwBqc+)mV;UMijI-6YK3Cr
zOBgbn%@RbbJ%cmno&;j*IwYBQN&zl-4J>8MF$UuNt0VSzewn6z^*c#W0EU16=jdB~
z*6Of3!Dmzx7xl)lC&6YH=CsZE5pRt%fs^@*FtmLA(4JD2t`?sh)_jWqIePXrWRp@z
zGksI`ap*PyINyqF@;MF)oKp>9lSa&S?F_B3;;71o@0n_!<fw6sXx%Q3v#wn^N}j<T
z@&ZzFfT(FG@;E}VSZOvsBR;4D2dX+8=2?{`KmKl#Gr?Sr(GVoxxn2UqAn*q{vVa6w
z+2bD>Rsl)J;#FYT6}b$IE$nY{wq6Mf#zY8<1tXNu6v?a!es!``vsHvs#~otEu7Z;|
zT?O3QRf5_w_e<wzbT(~+%f`QA-kn1sW0t~;JcWW{!a1#%ji{-KNxu(9Z4lV|TzJKw
zTbKS8w@PeMmh~2|m=@FZxwzgqYtAiaMoB4q6oI!tu@+`G7@vwpR!q<&q|o*B3@NwL
zN-ipU5HH$fsGgW}WA-e&=B1UG2Mge9??%~{8b!DKs_wHCAKmm;i8SBf^f0XJcwCYl
zB1yS6ygy4R)AS~3A@NJL5H?4R<;$Kyk~^xMXCnF<Ay)lR3Vn?d;Z;W*`D^}Rg4J|Q
z_vcRItJ!c1_88u2hDrWdC;C|6K9FmvI1IQ3(QV^eOUt!j0!8<fU|k#S$MElwZe|--
zX%pthh05U-rvW+{!-U66Ip;u0c@eZx63gpQAP^muUA1MEWx=~^vn~&;NFf8bT{;7S
z-RBRmOa^n(GTGgrt^wWkXZY?nc87PY{50_&2w|fn@cEr*=^;w}RL~;>^GwV=S@yeN
z7jc{=`*^6k1kuS&Hq7n4m*3<9-`M(m?uZH$vchsjB6ICrL{StE{E*wfWx8-(Z<%zy
z*@Kg;5ef(iYiMRaAoW__T7)_AL%e&es37>rf94`7u<E^MwywOWD%iqfKc8L?|3)I>
zyofRfN$pV*+K4ce1!GEP*@(*f6KE$kup)-)9Z8gtgzJMOP;5PtpKpnyIK!KU5j&43
zC4w{O(m7(Mzo-f%J(uU2JI5odg{vmd^aDA-;hwX2^4jbIfmi^h8H2DsWqnHmsY4%@
zT3xXAtf1KD4Xm(Z9eSVCu7GumlFY-G-xf0?H#TVzy43Nc-`n~*CKocTIi@Mn{ujh?
zyYKPG-_O5ljNPLlnD*34=&fT}Lv?adN9n^OXzZavt64g4AT?G;uxdG-(y!a#kNUg#
z6*~MgLa0{c{ErQp(a2U4;|lN<+oAB8#Q`0Imk2%GLU*hEF)?*Kpm!bas&}pJB&mat
zpWz>$TWr1hs59a@Jq0;mfgaCweyi#{aH-9h`9z$lbi#J3bIhC37#mj60c*DT+b{SO
z(oIu$B47h)10}y57lzSG{MmH0>uhaRuVBVy79NRrOLGJ_;>7)>eMCgG#~YJ5*AF{h
zK<EuxW-?UDjQE|mt+i9bK<U4S2#$piC8~TWG_0MPOsl?AhyUJoso#iMH_D4hm9Yho
zlxxM;soqx>_4sLwu#)Fr#y}pbxRaV4bYr6C)Y*kE0S~hbQ0WGx-5Em;44xgn%vH<;
zVrN`n+7(>A{+6Dv`>Q(=c*DY_>^roLOJ4Foq%bl<6PPk|!U{}$uU4Lb`+5Geor^V!
z`b6<It1pYgtM6kS`H%4z8`UYYcm|E@u6aTnnKKav%9WYG{_T%Kdd5Rhp((G3<!xq;
zuYp`%WpbNr@OuKgMioBrxE7Y?E><Zz0e&S|<_U*L=Y%b03xe*8fMvpAk<j9_)X0*v
zxx5Mq)|Iz?F15CsA_vw08q*<v4e{3fTD27Ck-)9Z7$cDoO<+bN;Ze6wi&ky8PHI&X
zf_ekBM02`6C6)ueZ-NtLThj?mHc1W5(_a$}-`W#6tx1O??!WL-T2)hL7xVX3;=4>t
z2iJnx2$N?mBKJC!vul_pKg6Q@x7|(F(QQy0qfb{B^&KaBm0b|vizBd)vvJc|2AWOc
z3)49_m8Sz8n?V(OV>mW47QP5ElYWhFQY~&<F+@STOxfG>hW)xT4ZRm#_zIckHXmfC
zwO)%-<Z#dZagoy}%yL{Tg@`;(w{G-=$!c{g`m<JfaK--Vt=B6jMlNigxDe7v{8D*6
zUU?b8(^LgPu0=aHS;g2Ppkm8DN`G=p1ydq$;EF&ojp*;dB-z<su}5hWCjq{oEaK@P
zK?05Ty_hi_*q)%MNCe%KQmzR@1W`}2ont}EMcd&Ne{k;-8p8PKhnst%_j8k)zqHPC
z5pLW@2*0->ORg07gHoh)N`eykfTjXJNdR~^HhOJR$XoXN*b1!CD&7(a$a@kgh&a(O
zNL3||-DLAKgeGZPJ(*cWTeskW$Ar-Kqh;(ob0S)v`=^3E+F|ksmi<iEMxnzFOSI&*
zzL@kmi|iURDe-aB3nxn{=*;z_n*DDMTqsG{tnM;|_yY;cY3QO3+Rf!qbIj(7C>7Vb
zm*MA7&=q-h&2nCY*Nxis_iqxgG_pCSd+hS*oRoK3<RFgZc=+hol&H{!iPl^6X0D7%
z21h)2tqY`x*z}OBt{io<AA+P_yL4-D&TWbf7oK8L4Rn{8AL&o{F}X-C3gYMjR7C+O
ziN+(#b$Vo9*AMaIvfOP%5RHCB!*U+jA^08^gIL#Qe0keY`6AH5^h9VYx?jc^7h9o@
zXPrknHAJ|N7QdGAx@<4^4R$Coy!@;xV#JK6yF!8b%{Y=jKeYpHInKe@C(A@mOBQkz
zee-+B8Ia1^1}m3`E3<KH$?hjk%7D~tA=GMN)dV=S9WzFfFzaw+gt-E#RjA6!3ROq+
z^l?l>x%NcRbS&7T_dXe?9S4<R8Gc~cxnzdi_+-gWvxT*Hdr=2+l)@(bEpSb~ecWwt
z=)a%%9iF@j$tr=044#|*AqRast%34RYKv{b!0I}-t1`Atj<EJcJNI=~Q{5@iFL7ls
z_!+02yL4J|I@mCaS60nEv+TuFj^m9C^%ya;P|Q1_^5LwBu8Xv}N7Ns7+hg`bwz|-?
z%nVbV(ii790Rv^T!|1Zg<!I@WrTsc`MR*LOTtx7cPR(k*nP}uv^)xH4-YMca8o^%c
zo;1=qG!u)#6aT$X_luTK)#_G^KZWFrzF+^7B8su6VFbMt*;$`BS>Ow_xvQbPcKl1V
zE?4$KEGe=O-1q(>rM)z<L*GX8l5I}^tE;>E<&0onquQbQv~vMgwMA|<-d`c>S_{}!
zsvVc;k4x3rv~;)elQ~)K^cR72t72J*aUz`C#;~T2+5tD3&L4vLg@qSnF#H>pQH8F<
z?9{5cA9aT2mN?2MtGlG4z~&o?0g;$$`eW<sr-r$SPGi^4>(7&Hy(gxkwQcRWPrmcH
z0wYCQRf>>14kxFyvhG<kbgn{bN`$phCtwL6+@P@^qIZ{`7RO1<gy5!=akkiQbLx3n
zwzS%hLa|`p_bR+P4wR{!r!=_`a;OYcVeeg2oM5~pyq*C~cNFU)d{#Xda36?M1;UKD
zn03JS;s=#18KiUyrMSwlu@+n?FEFo$82FG|{eh4uo()r|oOmnCeSaM#{D<}L!(B}W
z%%&jMnWGUP39vZ3NF;a5pLp?Jr_f$89P-40e&C3`1sG3$*saAAT}96YJlUxSpdseI
z79^b+Yd1MFSwnnEFEf<CU>8;nDhLZBetSj5D)ht)5o@9R;WbRva0yBR5f0}^xR{!o
zR!a(v4ILye@vzUuaB>NHrH6Y%NTBuN#%o~=!Y@Vc!UubIDBiFIH<E1++v_7!{UgTv
zvhLOHmxQUS9mo1Bf7?Q@DnxWf?ebU$-_X2ol8Q!ZAg7GP{0!k_A;x&p7vup-62Z#4
zGPLDbLP@o>sXuRzjt<Wd)5hE|Ueo|an`~}Inh{d=K%z~ox>ncH^zB`0l3KsiKI53}
z7mk?j$3(Y2X7^Idf%24yh)ZpNmr-5+Uun3}<x7GLsnZs67#?h@pZbXrKXKv4k>j=^
z9caC3NzgKCD6g4~N67Y+d^ullS1)%XJ3SAAut6E77BGKrahb0F{37;=W}x4H*mPUM
zR7q>3C56Rlm~t6q-WQvZ{;=D_!`Gm-3#$wRca59+Djr8cGOLOBP~X?EIWM@if@0~A
zevQ%S)Qi#_KdrwLpDi8k-TUXsOV{HF8TneoV>jDC`b(}mxal>5^NE;9gF$}fGtMER
z%Cr42=EK|lik3zf@h}ns;R?J!5zSVBU&T<g7`CgKW=EiRbM#5OG>PeW_y-kkn`hxy
z#i^LqX5m%}li{CL;Og$)M(atO3Wibho}=oP-j<GEzh|v}5np_j4;V9rHsHG%MfV1V
z$<Q!Gxr_`f`DmW|IV)LJZY}(?v<<OUqNIX7oc=MV1uIIQa!GHCHeSf4YvTzzcc9O0
zfjcx=uqn-*LB(Rk;Rg;qTYN3RqeNip*s2uYkmaxCX1!jRU4Y--ZjT$6@DR4nLfKXh
z`BQwnsvlfHC5T()Q0!Uq&#}68`9`&^`*%bh#L5r(Rvd<!co+{g;Wy-Pm`{W{cTdj}
zbo8G8Db0D0ZevA;^l;7S7FxnLvduU|)8k51K`3k}pzbIHKe}w4N7qecvpcXZ6He{O
z5qK6e>b$#wO=IMAwo(?W{EFEfTWuE5bLmy+(7tMdtt{cScGLaUY!DFtOsxTh*<NMw
zW6|h|){33*_77?h<x(^1WL~y1taWFIftFZ7CmYm3(Q?Z)4u(ZUx!46xxEnrdweqUr
zRpWZM57XX3TC;A_>Qj|A3o956UyA9G(4WvQRVD|W-y$U#g0lya#*A^yZ366@*EI#1
zO`{{0h_bp`QuA;`k0pWCVym5Q6FY>mB+vPL%{K(R%_)x6A!UdA@s`6nrUHymII>&L
z5@$!dG3q)yJP>@Xg*ACt(TJ9<GfRCsX*c<fE4I9{-6Ix2+F4Pxr48FS1JLb}n4NO{
z<&o`?v0N2Mo5lX2mkOM>=AB7$6}39WJaMPs=ONiFM=ifrzcH`OBsxcjYDNBfp;V2)
zL^*ir5!<=zde)v^xjc~cB3;JUZVJ0QYJFN%{cv^MK1<W#;2ug9*yZ78*JbC9PL1Bc
z8ANaJo!f6he<c?{1YJF*70d8kHdU!7spdC4ZWpKCFyvt>S!33tD4CE%wUvop`jJnv
z5tN3b_*RCA%1xAlFrcSNo==o`y=qTxMEtR=xQJAko<uC{$~G)=*)TR|oaxF!jsPmm
z9oA=t?Qf29)q6Y`pMjlV;gp@Su(jk3C8b#hmb;a9E}FPU1p`i!gX6aamZz}5N;m}u
zR>+QnXA`ifU4WB>Ny47i@CNrJAX?8{e*rlT;<izosHGIhh!i~PE8=J8ZpEYOPT3N%
zac@kq&^-K8uz^v@w;OuN{L&cW@|Ovy<BV&<cAqtG_-3&Il9Dv)arv7!vj<9SBotnA
zq79iDs<JaVRpMpZ2oa-CFv=zEKQrDELCNlg>>Chd8&m<czTJ!j#v+umtpa5sMRFbc
zSEK0MeUKL?{w$kNM+M6>2$h$ZN(P0c-iD^$A|#P!y>QKQq^NWdqC^~C^&w9Mf6~4z
z^EyUG%l|{uH^*1n{P5Ps*0yci-C}Fowr$((*0yci?bfz!-}C<Nz5ksvXU=3Y-z1ZK
z@+42JJ;I~17CWo9Rbye_z8K99>c(^Ip-0In9O5YdeSCqSx!CruU};jnfvOsw=vS9t
znh$#`PDWX)u3XwoW!swPCwAM|1G9^!Og5y<^iMrvO+nx$Pq+3tAEfDY%=m!&qt6bD
zpZNQSQDhUnOHgHKXaL`7O_T-`^}v#hUeaFYyN~N<22*sj9>G2+yqB%bSuk)rAS~|I
z`d=|I-$&e`^sWL5i^HG9Y0{aQ%dSTun-pk}0Cs|h3k*$pP4hBK2R*porybkp=UPi*
zA~_|9c8He&I>m#JcOTY|lOK0BQqhkrP3n)rB0SHD{}5MHyI?V_lXp&gKlH9ox2~L-
ziT|Qg%m-R`iy@yKJ6(qKvN2;Jj_VcqO}-D);uIf+Rfe^GkWZG3s^9mGkUL1Mr3maW
zRlqwEO0^_=1hI^kf;zT9_X|t?wdS<KUKr9V%E%^i=t1qZcwY9(KlBknkwOn>l|IwI
zOl~3US$4j*ZpassN$Ou6fost_J@HDWoiw=mbb<Cel(Z38KxDxvgO6#rFf`}BbZ%8~
zXw4W2m>r{*3h#{x8VH52%Rg(JO~;2jTdQi+VUAPv?Vy@!`^B=J-CHoVvtZT1Ec~t;
zO?DMvwr%FiZWL#;eqAe^fwqi2*~2~VePW}Oa`#RQqvRS2OhPGHYTRi=ja~%<u7Wd2
z4X;A-1YW5>%=a3Em^#zVo@ao5J|w-2=XMVIj<g6~IGLr#ZYi=D<l-L*XDFoym4^IE
zn2kuy3dT}ZpuTI+;$K+u?{6nm0pnth$uUvl!V~+42Igmm2}t>L>B&@uPW^=6QWK8A
z*fGVAm8FA_(`QqGHJ|#CW||gX<o4`lp2x$P`}O1$f}&yfHL<u3I?{FhWBFRHm?YmE
zD{PXsd|MZHqxpyg-e_Fy_?sX|WmF$7dKzIxn#5w1$!9w3_|e`J@11>>LlbP;59n^3
z_7*-$$0G*5{rh^boB+%Y{=11Y-}lSP$I8`%n<0Hc@Va!zy(@5IZB*{?O|g$fe9FGP
zOyb+LMu^Fsm>u7}obQ&!WCV(UadExntE)#-KbMU;<POx1?k&>a{{E7&{h>Q4Qf{;<
zWV9*Eg<)SA6;^q}^P+WZ++~Cpf6`AG0Tv$Ph?B;D<F$O~WHU`|j3V#-)OqpxQ_7pW
z^QSgv0=jhvLaeUEN$a+4+@&$8vl$xZ!Rv>jrb|$45EVX(y19eDok+*TL#^q~yjzcV
zwn!Ak?BI}%noX8n_<4J&`?Xos)6m%uqSx)+6_iL^xV7NbKN6PFehyd2w&9a85a)vK
z1K+%b*4!LF+<YhGF<a$xT^!>-&d`So9nL`3WE8ABc*)Hk(Lz9tio#W2a^<^-v)sZ+
zmf%Uu{&gg^K8sB#t3sOa{Nwn`_&^@fhF~%==Js`L^vuMhww9~q@Mj^{LB{WeXIUEJ
zpFYZQ;sN<?h7UxWdYIW-QikQEBsTq8M%Ow$8!O*NNBYgC#u_g-&5Fls6VSNJ{b^1i
zaOZtC?gb)$0;r>|(a>25$g)8gtB06@hCA(tzY4M_5dvC8n62wVhSjK*sX6Yg<Fs&n
z<K1Q7ce0c7Z5d&#<4`Y}VY1y(t$Qx=(V_&eYPF5Oe<l@}IR{%iP4B^-{^Mah-!k|c
zNlZfzN+bxLJZhV;6i+AqoIy_TGHCU;$TD8aH9R9+g4c2=vJhL+h4g12&eZ)I)!#s<
zR8+(x-2Cgp;@*3Uz(DPT6)g@PkE&O9PEHZ7%Num{?4F8dJoJs#X<Pjs3>jS(8Zvc%
z&<ksxF?&VlrnWF0NNVwP;R!CA7?R!Xd8UPNX?!dKm^X+aSs07eG5z4=nM6#c_h}mn
zK5(KztUQS)$lupiD^|OW+FH*Ev)Gn#)DXrS*Z%}fTRa)dirGjY#0=a}6wp1OH+{_j
zMW6k<n0*kraA%+aVCEse^{4bWEl!u6uzrbR%s?}sIPV`*3p~#sh!CQzNmjsmY$&qT
z$B;TWqT;m=nZgP_h@hj<kfL|J5s7RPA{k6WVXfmJ!^@9O=JChNhjZ(KSXf9(>c@}=
zbq+(2=N%9YzDE{AT)2<za{sHZxV_zvu&R(}*7%jcN<+M+Hg62P3GMr5ZeKJQJ(sqb
z9j_&xOvwhVlIpJRr)+m;7RuXn^Ubi=Jp3U?lyAL@Q`A#|THbQI32B=b0}|!Dx|-^D
z*~T1#x>(*{Y~{MI`WS6>iLX-_Xq?VE(Zvd-Lx1C6hjq^fmgPaYW!Ms{q+DYUJQVHq
zHmSImvGu8LOC{qW*G=^b^jl7yk|nak`PeH+l%$!FaBN-TZTH16w#A%Y>H>XMrWf&$
z<E@|UM2h~17h$5S{&9F7mqN1x+3CE4baP^?q)#Q)AW0*06E<?K4s)YKoQU^?r}F8b
z7vZU`?Nt`O1-fN)yr06?szPVP&+%UO?**19B8XH-4S1F7#xp{EvzF=ut+1nnzsT)k
zRem&i1Y^$k1C>KcO8Q(qe*cq_hs{HU_lz}Ci!uKoWYG1Vn*ECwa#wa_^80%@)H{Y$
z<eQ<}+e;q8Nvfj8@iwIA8aBT^Z{7dg-8q1+{Pb(PO%lkL<P2y+9(n=x9Zl+T2-1g$
z^^f;zrb|SSp}aUcBKSb|!+O}0_-IkLdMc+0B(?uA1hKeh+%%Yw=MFvOq{%-jy&GpK
zKwf_bZFhG58!^NN;@G0PjsQ8`R~Nlq*A)8H@9zr_==b{>Jx+7(zZU+|Z1GNGA*Co=
zqh|}*``OZa{pSUv9G8PdeXfk_6`^hLt<kKJu_E_1XM7)Al*8Of&mzsRE1x@poq{Wz
zwk*&cB0z|&qvch=yVBF+N7|r(XjSd=uD$H~uZ6{F0F8-S4k_!``rXHq9kQSha0LB6
zE~n~I&kDK5TJ365>D`Ktc}T5YW9QE4!Dv!-7|+f+G4lR%daOmSO(yH>P!AJS*>~Uf
zr$FaxevbPX0@d#vmfIaVrrb~PZ<?3Qg{L|uV}`KN9Fal%#l<k$J4UamhUVqu{VN~Q
z0sr*$c){JRu*yBTFM-E<i;SOD^82p7dd#$o+N$!`oBW;bP~*TxpzKDVbsE2&xKwGG
zrqwz2VdI1M@cj@*p%vT3Y^DtxhkLV2;0OLyYk5#>h=OGEY9@p=v)OcFu_jp21TN?L
zR(Z))4~Zc$eihO23;(-5UDUgFR6A}vq8ubREl;?xrR-8LMJpSUoqQy-WzE`;m+_S?
zv}Y!VY<ZO8^!z+of$-0++^5drePH3d0`3|=0|~#;KP}-e*Q-%Hag?g!I1BJ>C70mg
zcMrC6KTjVYJJXNT>{<T$G^>gnx78STdga>3ysuFho&v94ii`v`XfXo2zMXL-yzeJx
zd$C`J(jcSTgkfMdvY8Hgjq*|RCBKOuECPHy*+j5?o0q{B!(Y2T0|T(_&EL@#s=p#n
z!5Z!AZh-bR;ZjpjIr|VmgH^IgeA~7`5b9~Li6LO2#^->fO<=g5v?cAF#x$Cq{0ZYo
z=-?>hRNwK|fCh&95fN%f@9=;BvI!9MP_pH%#~|cAzG&{x>h3|dOGU>=cV|1ukk|o!
z-h@v|lWYPPR3t4-f@Bz)(CVcd$-Qik#?`!tiE)!0%RCOQJOS^g&@^h2eDo7PL_tyC
ze%2{VjioO3dM!-0J*6r3Qr1$&UwXf`C{O)UeIst^!=ZT5S+9Ae8!pAo|E)ZEQhCJF
z<YxH_ah;~w<6m*KK@~&y&M2=%Ag*4`mkZkbw8y1bxnsquHo?)4Q|!IiT$(Ot<C9MP
zyc2zyeBT`+mFadsUl5=;z<;kM1+5YFPgS;zhV1abx;falNkRHm;>vu{ecd``M8OCZ
zOshC}wm)rM_(2%;<2IxWuM<<L%V7ywu}F1r>b(_NIEg{xTVe8)#>}|aEt&Zl+Of`1
zJeog+d7Grb_0)J9Qg@febkjQCP+UOSS|zY-y@A`l7gYkNUbr|}q3RcvY0-=(ozWrH
zGsy>bWeiYl1|F{^CWU+9Y6W21SqWvP(Z>^5t?Cvh^I7fN!ZxJ2NQV_R)!W``4g|YK
zF-!DTEaEFlldm+51S-&l!{We^YN53AKFZumCVZd8>6COe%ZIV?yIOR`tE^?oiSSe9
z7nCKW359@eId;C`sZu0DVR705OR*Q+hNR^!F4u6k$YME)e4W<T5;_8k=X2M;6poPc
zKS&0MR5s<^N>{Zias)0M7TgZ09L^0e^um6YpVYX8b|%7ysiK0_7l*FJGez-j-BGqV
ztBbh5rFpdWeTgEg)t;y4deOOEi?7?23EEK+rVY*I_zCsHfS-f<f`nLgdW1gC2SKrh
zYEI~xTsYczq_(vKa1^`nc1qVD;9KwHuEaVHTG)(szMAYBkvJ%F+V_>DM?vV@{LvaP
z7wPUlcG#ma*IenUb8Q?{$90Y3VuZC6lz6k{x;_xb3S4w`fRKEz4+LYBm@Zp;FKx9)
zeijb<$nM>$dzS0_gCi;x`5b6BPz9M-lL{e8M~P%eZ4C&_=`u%~h}YRjuX>J8+Fu;<
zB>myTfebcgk|qCCuDw;CmQEqSJ@nCAqM{((%N~@&;YY*CxhljFrV?Fau!_f6Kbw5%
zYmr6(lZ<~>k@68qdNVgMF=aIx7D@k#iKydb2;^*7&x3lcg6hHvg1*lSX?r~VAfsK$
z@`)3u^)oi}^H#(o6TmBdKnXafY=lhGmz>SQtZ^z)O(87@n3eX*R93vQI?Mc=^e4pA
zIoNnZk<l|Qar0Qd=AjQ39gch-qSm}_W<avM>l62d&K;8HhrDYRsT=wRjKOYT62r-^
zkLKBNCs@6Rr~{m7XUG%9uxIH3edx}#e}mDF<c0i+b6eew#55=Ogni1_9mR^`VvZv}
zHci$}7_Zi3JCIxFq7(eZm+TV#Fl?Br`7%sK{qHKT(@j2QR|Z_D<Uq<FiO|SlP92Q)
zR6Vida%`EE8vLa^PMIwoITXakpz6EhUhBQxsUFyH$drH!FqIQ`px=#u{ACenU4eV1
zeg+Xjg3up`^vxlvgm{Pt3CQfjw>Zsq**qd+iM(*{CpKk5(&hL+ATXVxd;1t`^=1VE
zIz5GYe>q4Isqo8`0~<6@;^rFpgUFPo8tndIZWG?ej`!yUuUz(Y6LGs{mbemhU`rTe
zz%7K=^#{3Ny3M>15q^MHuO6oONJ0Xptog-teJ{Lksl9C=_)27`z6*V?=03y`6P(v)
zL+{YB_Y2=c+|`G{o?j?IR`q1L-w-{)qt1DdjnrMsD;g4vX%tUG3<nN<j>wTF2c*Pe
z2pH)g1yN8misq{cEW~>xlMABRI82&r02O}`eE1SZW|xpe5V$inY$*3mn~Ig%T_34z
z-<_1Rg0liNmOA!8F#jG;N;9fd8O^7io!8cz83a|$D2C2e?b{_oAJ*R`$KBWtPTt%I
zk?t?1zV-9p)k7?7t>_&tAzq4YIQFh?Sq07^Xc~u5JoHaO&MuB>nKOviC}174sr=av
z>G*KGe9kHb@MA3~O_&89GD4<Ki)4TBBY$5oSnhrV*S!)GF!S03W(Ik&7;p(R$XFqT
z(yC(;Y@|8ErHxS<O643b9jgfP0HHzn6tJ3%=#jip1Kh4H6bs^0?6B*fgJC2ksNcn{
z*Pkh2Ng_$pj#%+J?!IDC&};Mj(_n}&n?0}rca*f-g9Peb`G`?3P?vEM`X2$ZM3*cD
zgZnZ5R~#TMJDBP{7$A`pErA0d?|uGiI^RlQV~g7TAP}gS_K;fA?)SFpf^A%#BJVc(
zeNgHHE9MBWV{T_4ptkzJ9w5~Eg1e5KA+8hAm-@hap*?HUGkM{>ENryIa(wWyWrM``
zhx2{m_Ml%f?`G<v{FA^@P;In{Tbl@xV@ix7Bp@$C``J%*;i$lqP;FW?nJ1W-3t?ek
z+VYdx)IcGq?V$!l2dMIO@%!?ijE5?%&=?{EbnV6{?*qb-(cN|N@lJhfaBY3@yu);~
zMPrn(uvCg8fS<DJ=HkI{6U|&gLQsDz2M|HKLxpOmj2&}@ga&WmB}^;Bz+@B=hYZWi
zxCa=HNN?4pJG98_%QyrAqqA_eK}18h*^v27z$3HB#zDjW&4~yCy8^l4kd<GH&zkif
zz}C;jKtXr$+eAcWbBaZTc(&)H*WEGc6~S@0p1*zq?&Qe`3ORG=0A4*b9WNI%zdbkz
z-+jFkB0ioorL}`P=tAzY$7^#K0q*spWSi|D(CN_skbB16GS0x?eC_VO%8v(Lw8Zz1
zdKl9UioP?`+PXRl@rKvc(;Zvc4cQOzCK(2NyHXumIqm)z5-h75ttGm8Ih+*|9i!Wz
zKDK&V93~ch_gSJjVQS|_Q)K;o-iSOwZb$sz$A)5Iz-S#+f%Q9nqVP;812NU1_3Lva
z@gMNBS0l|i(Q_`zReA!@Wi+=b=V3fD9S4cC@VJ`^MX9oaxA`RwfsTbr4p^$pZk@Vt
z#ot<al|5NxrZ&ghv0xwGRkV;xnh4Ll8wRPh8B^t~DGr&OR}myV*FTdv#%&{fUIu<G
zV)UNuV<QN|QIOBIc9IdUkw~CJ?JZiaw2Mp#v-R^PBgZK9yjb3|*WJXPZJp=*tf8Is
z=RPysy5^aF1^)Z^@YV{f1J|^_#0Yu4|DDgyHbw>`d8`*cBCR;#G_zeZ$C%Bt_lVSD
zEeMC~Y}p5T)HqyMU$kE+x?O1_#KT6+2Vkl!OGZ@vWEbMzbn{C1*!|&K0lq!{R2+6p
zgHkp>(w3_0#m@urc3^V<``QbFs|S<w`%Dk+#|5Ucd4EGawI*y>Zl(pqv<GcYGfez~
z8E8_&=wvbWdH#tQ(+Demb}|R9b*%UF_hf`5W_(o6RY!gdhgJuQoLZB}2+X3<f%503
zqYnW}2Bi0=&1i@|Jt@zNAR=8){EdF59*2RMjQqDuCtes3I<#?_b9UzlLMoPvwc8Qo
z=RMSh8J!a*Nmi?Gsd*MguP$i*Xf4S8NqagcRa_%4M%t+f>d^FeUk`RKjb?ENsTkD0
z5WT5}K=lFGHwO7X%tU<>Uz>WpheF<wL?6Z29u9jRyIm$agM}a)b6UwdHi*xVUg`O$
z+l_v9C$cz$(Fo$v@h6%<UL4w4K@+VZ+EiyJ_2EJIoFp!K0t`v-&2SvoFd-j+f2(~;
z%4-hG;T#yAhjs(RG(b`c!y%_(63Z*P#jrg8=Kvbs(0#s@jxMA`nTl16>aab4xwtMk
zk5)MiZSW}cFDP%E>ZcAwdn^I>3IYT&zm2kZo8jOoc-o(29Akn386TS_Gpxs=9%-cL
zN~pwsHN3lnoxd;pDqXe1_EjJ^d*p6IzbWsC3q_k#CZ60AT!zO|7WY-eqntviR}NH`
z2@Jg&lF0>(zZ7gM9Ql05PWuPgd=g+t*NZ@UV}6WdoXt0*?y{#-DGc-I@A1Fu%r4|n
zJ-a5*j#B@QsYi0i@pcC$SC=qHD!&(KN0nQ*qrH(9|4Sb)a~P37ikvb=onO~ZV%2F*
zX18l7uAI<6I`0}!rRQfNEgtKPCT@mPt(oq$rkb1@{il2)(vqx#S*4wTh$R;LA<V}1
zMx`|X$iUZ3$Z6ynoAO#&-b;%oH7--D9i=I6aVYB0-%i_U>?mVZYv=DYGz)a6_OuYk
z8zuPQ{KbheH<KW#rW)SxVp>$>qBg}w=`!ZNRlDOCQLs~2ynLL5ptwp^KCDvPl$sP~
z(^AmjgbTVz327n6;ii$&YR9+HNQL2>(0F&LPSIT=GASSJ;LZ|aNF!*_9nl%kF1B8&
zVe$~rQ&oEOz1r@f-<e;5Y@VNu-kXF9eS)Mp5nnYy{gFJAXL_Y0c~z4Nn^3U88ZKiO
zd-AV`^V7!p*<`GY-cy;7OcBXrj(i8*@eE30&dErwuMmeffxA&0skj_ZQ~0csb?AxH
z8M)JvikX<P!vZ&El#6nu&$?*vq0MNKOtYjxSh{X#8JIg)i~q~_irk9Xp^R33u9?P^
zt_Y`s*TM{O`rR3B(cWP4@8b6pLTmE4b8+-~$VJCAJ9IX*MXk604AwNS9ueY4^#l~g
z-Tc}kl+C+aXhF`AV|NbhRZERZ;;c)Fv{XGf9-)U*>O&a#ZrlQp#S#vDRxQyz9H8lE
z;GaPg`WwM8^m))Rk7AOg2HbbbG^&3g%BOQXV;28XDw02JKTTks^7u#xtp4QYD7()%
zhchgmR@-VRSs9d-b-$Hqsa-H8FRxIKVk*WmU4F$gpQN9=oBq??zk%DdzsT1a5p~Uu
zAy4f_eDof48?T9hsj@yB_t(*Mv`kf+<j2m}8wnNcM3UHA&B{$s2JiCzuoUJ9vyBi7
z?5+}iz{ZQf_8Cvi8PcB6&d`XRoH`QBj6wu<Ja)9CNzPVkm&qLVu&D{DJ<Igo?2fk8
zKqKz;jXCg{$oRNfXkYMwljcybZykzs^K76v+<ludGCK8agMO5u*5G<wYQMHO!<}=v
zjODcksjESh@3r~9(VQE|yQQgD>jw_2x)EFDvKd_+MJ&hix;x&EPjnvj0Cyd^JDLj;
zKK%hMF^*1c(tCsj6m@A@IjwV|W`9ZCp?r{#78Qe9U`S?OVZ<<E><`yUI--1kNi}2(
z1`2`DG_qhBM$d9BEG;c10Le<Y`H{O_{(XNO{p$L``FZyW#_gEqB_ySAv)(1Nqok*!
z2{IFf%`&O$GWtY8Y`<0f<u;~Q!gzS|BW!jrYbBg%v-Q>j<ij1-2#?7PN#0a@_Ws=e
zhT*sKx~+D&M><ZD%ZzMh<wyRLJxPnd{b&dA^XdDYI&+<Xa|D)EB|{T@^w}3YKxu^R
z5<4-jAM!iL?v`Y?SX5K(;JEt;9SA2jY5qmMCt#|hV>VT=%-rm$iw)z2BHh{_j%TSM
zOm2kCmgNB1$W(LS%uM<KyVb=q<6rvW@dp#tblfPa>Ij?Z(E#8^WaA&-@*Q_PAO_8<
zj)~eloce}C8f_bkuN52-6Sqjf#K;iB&crZSb+<{L8Epz*If)-@oABQq^VX|*Af4qG
zA}gHgg6W^~9wO%?9<iz)rK3wHNYl{pzx#bQ4IMij_w9r3Crtk13HFe)oz}SU%6x{X
zhxzM(>7Y|!YX20)SP~0smgR@P(A|U=+_T`*uFu`glcR3H#88`JH#PbvW2Xv&MN&1_
z092Uh5rv`{xL9-Sx8ZTL(K24<?Aj~uS?F9;T0D~-scxqMT%tQT?H?k{6%4zst1vEG
zh}o8Nq-3we8H`fPbeBJr2pNZiZYvasrCrM;gWKN;duYA$Ok`phiGQq?vkS+rvD`GN
z4E@5Do-5S!h2I1<)b>H*+e#yv6m<!WP|c*>*8=!)NAB4nz~$i4C%2m7gy;7)kYPC(
zfUd9D`}Rz?r77=oCbERa97(NU;E&sBNgl73mk2rYPm4I$)2wCAfAnH?^Ji5zQHt0V
zu}9)pXqjR`uP28cPBjvAy2d*y8koI~O%nQ!3IbA3F%r{;j|%cr&AV^fm7T*;$y=14
z#0@nk-x~yTs*rL%`SUxrjqs=%p5sMs8?j3@odc=4eS~kHr%v_DJqq5}WuKn7m?svA
z|G1B%x;gg&+r7NmtD*YDoOo%QBbm)1cr>FSKb_MJaR{vEp;TK5fumw_$8I)CKIe$t
zKMR*727vqo34(2Ais_$J!q7HcNs8(iuQ3;)<e}E)lflNeZZ{Z3rp6ChOu41O_^%jn
zeydY@6Gtu*mlLR}-xo@Rvr`Tvmm3l8(Hr!~Y>R^q?l^>vLM;u^Lh0*dOX8MT7y>03
zS4L<=z1K!iiM}ll{mQBqLQyhJH-9{telIsF3dSFaOw39J`$cZ$G8fya46&v{uIzYD
zDbAQXAzG_Oe|+Skb4<20G;S=&B_y+o;iA1bAt4DPzw%J0ju(O-08;mkdS`4xr3>h`
z#TZ{Gc+{R`YGqT}cd5Y2j`l}YTbZ{4EajQlZyxlQyebsa<YFt4ALkKwNf?*F^;u={
zU7-ZlW}f&N<@^lyNdexnrP*!2EtSLd-)gs_b=^wjLmr&s7~72-Emf)qTYZI^;Uxzt
zDy=WYlC>!gri$pYUrE);VRTREEh%;@gYGv*clr7FwZd5LEB7k8D~HSF-#3}?*_`Tl
zO&bvl#D^9GhFNgA*6x;Vt#qlI8Y0JZV$#NWOx($9=RS1|f8w@fWun0Bb`mOHMew~V
zb4lNvoXl%Dnr6goR*IGgRIhz19lrjgrm85fg!{=~v}GHcT5)W~cI@3A^L$jR;%?yG
z)NZ)fN~g4N9akRBmW8C=yfz33rh7@>EAt`=jOvXresg0#dl+Jn##NXsA&lHAeo@cq
z+?lx@@?0I12Va!WrlF&$S(kY4MPnXq$svcQo5a2HdkqQf(y&1vm3+9&s$@UoqQPUg
z71;h-Q4}gXGre6%&bbZW{HIPah(bfGcY%N%-wj?*QnTGqG0L`uaYSqNCkmnXz2V)r
z<}IhjL(j^4Y5A9g?oym`^+lp%*b5PyjzbUZ=qc?wI)_AWHqz#U^=4a?fi+!g68$RT
zd(=%fV=L-y5=~Z=vdla%WRRQ+-OGLC6M;_UNnJ+-_y{Aw@Ml{&?T;aZUVM@;LQIX?
zPcpVcI%YB?GeKlw%2+1_f4&<@GACUnbQGtyu2xj9S-U=#c|5hOub6uCar$vh7R<l$
z-WbPR-kUl<PWE<UM_aAAs>~*p+PmbmW*&I*JO#~7vRnMMR$Y9Ud7Jdm{mflnh2L2&
zZ~arKf?s{S^uDn3XW-82ymr(eD<nnt&h486{jmK<Mp^5<|Au$i4u9l{ML;rX>*w0o
z*6-r2x>SK>X5{HaHZiQ47we`!gF{OEgW&s<8Yhi|kz+Egow>m^3rtRxgvL%g#v)yu
zVNXCpwc7Qi7q4nL^HUyliu$0opyta@Qmr~xE6taGYEjm{ZBL~)^aOoSi}IjyIc`uT
z-@rb3hGWv+rOkl5Hw^1&PZ7)1NdB{?mwR>BvZJ5PEr>_D1QI8^5=Uog%POtNfECcQ
zDH(o?vU`irt8)5Yf6(eIbY&ghF8O_a?^wbMu0|nOtmZLN55H~x6My&L?3W*0ouc!(
zFY3tR<)&U}SmW-Hd4Inn9)Y!cK+RCKPRI?q0`52DNSJH_D8Zny(iLg>H7PCko<(96
zBDrB1PC+Zqo=_MEi|6gsY|wE32!=)Jtt>h|hToh0J)cF|{<|;qnp`rY9<DuI>~z%l
zH1&g7*ae$(AtIuuY9d*vQH>!URpU%ttVQzl7G>@LF0Ys4eRTt2tN4ZsXLKPU@9XYA
zr#(aG#H786wyFMh-<;A4SBc@9f^l+zJXa0KT*BsADsQ|R5dnc+%+c_#EW{7I;_}`v
zM7SF}@a#Brr&Hkf)0B|))eRjD&dbjwykE;hkilfr2egZ_$vzp7l@_n6fzc=jQjTY(
zdy)2g_4U1noK)Y>oEy3S#!<d#)bOP-mvbl0{Bk+aX)LY|y6#MysZXX9cqK2(x(`P0
z`a{*0@MqgU2A{tY#)Kr!^e_6a)16ugo1*fVYwk5-XNN~y^=id4U9ik{7UqG|GTfs2
z{fwP&X?p;VBGj3iD8v)kqj!!ZMGi))ujo{`X@10eBbm;7ajMj8n1vBEar|H^KEG^k
zXFs>R5QSlzOft5<FhSzz%$iRP#@bbJ;oL{23=70GeCii|aMVhtGWB3wy@t+vADv`2
zMYlW{<L-Rlr!(`<GIB_D6q#~$)Hv8CGxK|!FHOig1jd^RHB>54MCleDEZ#nj=DD%f
zsIFKbN2l@lab4SA)q2{jNIJ(pBnp<21z2tsktS-zXF19fU~Eenx+HRHq>O0Ne<iBt
z9@B+9wM!-sV2j-~kzV0=U1gK7RCA7-0Zn3Ut(XKkn(G?;?B{N?94#*Q@L%OVkl6Tr
zno+EC48O0-HQKAa?azMAro^Q_e<feoo$ApjNIyr5dEHZ(#pEbGpANkg(eqhw$%%T)
zZRb&7@SooDSw-cjynhb7G@%@aHTM>O^I7$M)&-LE3>Iza-0;dD`;o_DKBa8gedRnw
zF!@ck$Gr1-4V>eXZEk$ze1<4k?2QkYX->Z{X@>1Ba#Hi}pXjm1O*shQC;8khj^&E?
zzq<7x4w+RBsI?$64A0X}6`Gu8`+na#NY(woUE3;u2>6mvm>Sc?-mjn4oSX?NVV5cR
zhk8_)O`BI)7W+51dYFUJoA(`4$RT<a4RXWoFgB#qZ|Iv)_D7CTXC=HG3~|gY!%ZiW
zE)Ocw$v6eSxai0A-^f0^VCQ({QutzY-g6r1C$@GTAS3^aEm`#A7+lf#*PC(h5)sH6
zahUWd_1o~BQct77Qp^u~9+OAHRV}I)SvdlF9pB#b9^64Pet&1jG|t4@3ESjib;mcP
zv*h+&;clltOk7T4>v^ztC3kXfdUY$?ovn0lYG=r!@#F1g_UF5RL-f&8UYV=P?b+|z
z?|YwJY;)Z@W2JM?m}TedaoBo1z2C9BlPW>Nchk#t;Do_?BiN>CkWeEu6~@iPU3)(V
z4$jJ(HrS9DQC)ko{5vT@lxItBjL>~TYp8PZdn&lBIf+ABS{G`yjer4Mc{O?knfQ1J
z3D44E5XTat8q&@Jb=7}Uf63=%M0Mkj$j|tKU$3b1W`L*lS1nEAGFpzkD)A&PFkjfR
zgc3ERE3$z0)54UfeH^=op+#{BSS$}!qW+%gGpVrQmi2g^CbomvpZq5S;h{cuV~I+7
zZ}yMZrx!G{7I+pUycYxd{Q+_B1STem9*4SA)y)Mb^X}I_M}4M;VKlbR)CFk2swxl0
z(j|59(t?^RE0s!5=9ZQ$<hk^9=mwTLJjI16G)z);Ml3SV%5$R-Y_bse!dg&us3GaW
z1+?kJc0^wl*BUSdg1wv0ctDA;Y!N9Gsh0_7-1VjPa-15>vps|;`nQ{a%dWeabx|)h
z@sW8%yjZWt6ZlYD4yu8|x$bhNnppQhnF5ymdL@6YdQPb?xon~wZe0;RI=vP&BebrI
z4ux#7r!X-MPIIbD&rY9lHMMBTbJab(?p3_u%YxMs9?n}Dc@%F&6hqs~(HEPqrbb{!
zaXn=GZecZ>kScsK8xibBZze9I-?ERbUqkmnn|JW*iD;|i+A)zC%3wSATGe#xY)EQV
zMX6J8u&VKgk<zk~3{S7a$Ft<vu%fes*b=S9!?KHg+P-HzS}CUk9V|YF$yaZFr>!yR
zkHz}k#P%Ts5m3EGu4^&Hb}+r=DWLgQZ*sy3pd*(9phL!BEHjm$hFeukR14U=FRmh2
z9p2ks1y0P1dv?ziv8!3!h>yD+Vu<XkG|&+47!MzvFL3g5V*c_<DV<AQcU!-u<3Y7v
zD~4HWSYER{$S6E}lD<I{ov7rLaU5KQNtzdN=^T4|dU$~BSgfj!dC$$q$uwaL><TjH
z^?(^Px~l=Xup#{>V_7P_H&N+a$8Ab@fX;t2+fwlSaJ)}d$0yTu(6qzS1=T=X#RL7(
zc1Nh+J4dt{n|%{CBX>~i=J9tuL8w<jv=6W<Kkn8EwSiolG(isNG|cp^escJ*83cFm
zVJ?0|fJCwDK9Z)IvR)~Mz}6%DqyqbTj7BPIShnq}vqMu~X11h(abC7k{9$nHD2WVb
zI`c*7s@<fg^PaZxVn8zEaH=|H-Ak9g8t+&)e0z*T`X;dF@>5N+6<N$Du@@-qHQM_v
zHBOFmSQ}|AjpIhNCJOmbuPN&RLS!dqs)@}&L_YU!D;wC?@*h#@2nl`Fo=GzMO%EJs
z^ylqLsEBsE$vn;Xo9ry%lRi(ehLXIL3N<qII>o2IP!Y-%x@PiM)GBuIO6D|6q=tRA
z{eZ-?*w$ykS?iZ{8+@THFG1DU_Hmf*1_GX?2H=^bpq2(cY;by74)yBFJJ&L=)Gl>h
zwOT|{`>xK<Wc|HsM`~e11YR?FIy!eDfOhVZA%SMb<5hReeX3rpjoc4)@FUkbAZ|mI
z)q&rTicSR}I+qm#`zf%Pf0=cNy*0BCy9Xr^RKMF1Yi`-6ff3VRCdrQsWig-V({(rG
zoy>KR6*%s?4kN04-HQ@_ekanoj%r4pw&AD&W{xyRN3=5?>C<hc&pVlKr7LmO;ru6X
zdSDW><P1H~t8FN)i3dJoVKFc^SRm4U2&yo1jN5aM^tuDAF(s*x3-D@xf#}2v>BR=0
z%p>b1t<0O!jXSUB82P!hIuX_|<Z$qS(a<|6hzzj_7V}f@zw=Dznzu*%#RJUvIMlPB
zj`3n@2EC0wFvSmKLPz=B=|KnCyHJIhD0Ca!QcZE06V1OkiG%c|HHRu|Shr6fLk)O0
zd}xA;8Eyb7Y{oA+U&j$s8kVc41eBwFU$_+cS_LkBQ40+U&NCI6=SzH`qxQlaqf7h6
zmel89H%+F#s+Is1;nGC`vDC0Le2A*aK_7v+8gXg96f&Y!*E~5rv=BTC!hYSaEEqzU
zE*+i@s&^_c4cY^ctFIUF!oKGNh{|g(3|u#y&6TR~6``Ug*|6U&m3ECIQiU{*izaz}
zQX5FgjvO&=4q7~8)dU+o6+4eZSaTzb))8y^9~OUiwD7Kbzn0aH*s;J?R*7}1>pZ-Q
z_e}9L`B%0sqfXsT;>5JuDnPMNF8C;Lt4t2KicjX=@1iFHuEr46w#<F=pEg>7>$lv=
z3Jz?$&>ajoVgVK-rWIf@aBfbynrypD9rZcx2UR%!+TF)4R2O5&o~-!wY{T;kv__~2
zY>W2r8nS0P&ZnxvdU!OsW;&?X9bNvi)Ikqc*_tJpWbicSpSX3$@lFib<8K4N5Jpa0
zQ_Qy#O{!_fpCnYrM7OV^W*Qx&3#(>p?7o@8z|43#!9j%Tbi@;7bs|+ut-dUu%_kuU
zF7~Vqjij(@1yIU+_Hry|mhA^~RQry`pp^FOj8=>u4Ke7Kn$#75+%4Sz<nHN4iOU}R
zb<Yxh3Wsc~irLT9V{7<>YVg2kR}>;tt3TscB-ef5aC6fk8A-%)lA7@^YpE#rrIZn`
zk!cX5?yyuuT@Man{_9CCA}sdf?&L_W2Mk1O3)usm?OMB_;2EK}`HIZwmvEgAo@ZUc
zfCK)&Qgw9^ro^PjdEh~o7P;YB!W%325twb2^@S=J*f+2ouKq*!Evc=Edkz%j049gc
z08AQ<>}$R=nUT(OJBmQ`=QM?@>AX>MLvUm`(i9xzc&BA^38q@Ba7yRbR8>=FgDo$?
z<e|2hZ2x^7ah2{>)#($DTDOEMv;WNpjby<@cVM&jzC|2qQ+ySE+SaCngpu0HU}OmL
zv#Wol>24)Bo1c9yP>$<f@G!V!VcSFT@hhbM$V2f$TXb~GooIi+wkwf|i35R4U792I
zf57Mef8g~R`TkB6b(EUU!8{2T_AxsIsU&#6R~S<*1pgJHQ3MPT|2Gufs-4-Y@Yl}z
zMbB<J#Jj7NF4(xOlTWH#-7m^RUs{5mOQWeqd;WJFiw#f(&q}ZhkBm(muo4oUn<@GJ
zK+on_dOD3BfV^A}06@I<Vn=;}`$060mNz|-KOC~9V4SB}x>)){{G;0JGIGlr-LG1E
zRhXaG0G~FO$~QS{V55|C<FNY6FE%ZcAs?bdW_zA=QfcQoBOHZ_;Ay5j84mkITSiRV
zX&h{$Ih#fmeG7wFmql_n8;!<)!CRa>)G2xG?S45Yn)`kx2io&as82-uG_$v&le7Dj
zPn!2s?TpJ=I`>ANYj?p6sitj~L!is42|3&T-38!P$-`rVr$*pZMH+X(tyAt7b2nrD
zZc@z9^Ex9PPIeV7v|&j!m)IZ*+Fb|OouezH9x9jiM={SQz@6-f2QZPEpY|%W4?U<l
zYahMea{nzz!3sl*!l8~f{uwHZ#GoBG1DGnT1MoeR|2OsE&lYK{&wQoYHycTWY7G$<
z*o6sFEsW{*R()nTLj9K(U=3wAR+y^)yM_;#SeG^YC%{!p8K+?QtW!k4t584ACX8}7
z==}@u%8p>lan<R3+o)6DXpmx!8|{Q-@=~aXh4f?6>njA0`GnWME$I^}$xG)Vn@A1y
zGgjv-<Rjk9r{qlZ=nnq#EEM?wT&VuHwS(c8;~c_EMJ|dc)jIfWFhHe%ycmhM&)4;(
zB<UIsUzlngT?*(V;Px2$s~mp8m7YsbUE)UR|F=jv37adVMiC_~JRrnSqEZ-(;lv$0
z?^R+MhFn$^yILO~6g<jQOg@A~z{9O2;*RNda0xiQ7xPZrS=w=djC@YDQX;Sqo5@He
zAbQ0t3wGY)_7IXOKo#(oDG=D9Xccf~-3$i?#l0>8G5{OS;zNDR0Oic5hXTq^qaUXN
zoGubm9pH5#DwGco5ozP%t~P$m1t)V-E+R*Lns<XL_0ei3U6r!wM+2=v6fae*n&bGG
zl<I6Wfz(-d#4#k7nka@K)#?CZlm8Kencm^~rcE{%|C5hq@#p{1n!+%PH5rwU8v@fz
z$dUY|PHb95J-2{M-%-S@frMfXE(I7P1dPSsX+}FyJIPDQ<e^cL2<Zp>hXRgM+msLk
z;I9F?zyI&Fxl~Vb%DL0*91#j7d8QjpzvPnfO5-}A6hKIz83qReYlTva%E73cYmqep
zUI`FEaI1KsI(-24`uGNoN5zuW=xjl%)DKUYd&2JbxJ>{YjjrUm>{Z_OEEQrf95)T<
zy~v49la$PhxycRni~mFY7&0)l;cGQ0_aB^Q#vgN3bu!yJYGjkitqA+`>_sQ@kd8b@
z{c?bRtRDR3SE&9BuG!B9z`Tkm1vCnP`EW;mFVlpNKW`gK-MqwDkQXqTcR24W84+<@
z0wll9bjZa7ylSPTFJWmo#&Z-EUzjUQurdNInt(Rir2FsTi;wotc$a>u!W3G=JpH9A
zs0#aINSDw(X5<KTz&63PkeTY#{|8~(8yrT#i&qdEfWs0qY;e{8v@;ngwmk#`JTNOq
zgyvu9L_qO=Sfyb%@=$8FP8Y!Y30YsDtdrT)7b~(z>8N?o6UgQ!tG|2sQ_40IWxg5I
zXrUu2fjC<NkA%T1nCZz(?ikL_M=TH_jcX<WGz76m!c51z$pBehf6H{BpxXkdN#wNM
z%|)iYj8Z~Eb{gTzu-uD@YS_hg({{|!Gu=4Q6dnCyLUk|*`p@)<T%W4LMs22vuecuu
zysWZsknw+ko3iu#s&n{}1%z=vEYL^~+kr66_PWZ*S_hpH%RC#_Rzu9Z*RjQLa5$t$
z!c1|zPTM#}R#_3JZA0zhur!~<0Q29wMiBq^pHHhq;X){yLF?$a3K15qmU@z6!a#`2
zOcclFdWb9%9>yAqgF(c`zm>PQ3&~Zgh?rUugR}=~fzEgzBs_-0`fykbM?xb*mZRXO
zcLA+E7A*X<S8a$;wjRKhp1`$1pguKd;Nd>4j646rr@wKi+Bd@INRc-H;Sv9f$?dhF
zCC&hpdwIZVap4quGNh_Id9@~U^0w^`9dHwNOAw(x{GM9#i>SVn5*;P`BdV>wXNHA>
z!dYlUM{cN#t;2%E@n}=Jir|4(=it``T~^1lO(r^o(+J}tw8vwlN*59HVR+2g^0tR<
zbS$-7#$xIMjovg;MI~&wZO-IMsvoss+I1^N;F$L5it5$p0|)^_jJzl>g9CuVBRqwD
z3nS^yGx)GEo;LAeqCBa93=4EoGSGe8)DbinT_q0H##Uq7nk5cm+Zw|LV%>iMF-gdf
zUZMY727tl(y~_s=@&9DC*TQaSCa?n2-xs37!{SBNr?1l7!=3@6`e$?PT{ACAS{rh}
zy0+mmQ90j=fOQx3$RLf$<*WfA0@_VMkmMM~1I*izUJaDfD1M9-W9^!V0q{8pAv4pl
zEOC+m)3Gj>xwqkzR#t2FT8TM}D{BGlwu$x6Aikp>$Y{1VZU2BSet3L(8$}jf(CT>(
zKmfW<i0P|tilZZ-y=6x=oudsboMjg=ncSod0qFb%a+}CTh0i<^iXQ%CMshLN4i_8>
zQGqg%kqPATuo7!oB=%yZzXF6f%WUXCObTj;SD0%BHCOX(WwX!n>i=YbhD5i1WuRw&
z72`IQRQF27F3aSsO6|7MY>P>x$1|X#snVRNIV#Yx0PD_%46fsaYt4ty3>LEK{4>#S
ztB@r^&A5v~w~`=g8M8V5*m(?a!(xzZ4BJZUb1=h|uB&5!ASNZhhR(2@7x*(7XyrMI
z^;K=(!bJ~ey@`_sLTw#m1&!o168=EWrM0dF5Z;$RLm@{#@k~qs6b+%#R=>vj>Y(y}
zMV2#`-fWDpYmn+6-1Ebf)wR?IheLN32-9JEDI#kvuB>EDyRFVhiaBrMWQ4<Z8j%<o
ze!HjO*JZG7OQGyC_eLSI6BQT2_z3)}!A>C2FBBGK14diUqbDNPjryA<%doc4BI>NY
z$!^vw*nz1tGvjFuXhqLWKLXGeFB^cifaK2Ae>O94)5XNr`X;<REAc#mYQ<>-yfX=U
zG3`~76=w2dq=PpJr!b#}Ee?_njC+R!f?#8HQ@wv82Bv@oiea%bK^iaE)B5fT=t$Mo
zw<M5|Q8>tz=rm6nXxmDhYEF5G8mH^g>m2NOVaw{+nEyMLP?%=M5$WI7F$}t5kWS=g
z*8lN$(;y;0h8Kr+1`^15IL{`quveOYREQo2kA#=<T2Hk<fZS><BcuPY(K2e$prHlB
zi!$#J01zQsdr~7}5FAr2AMNVRs>qqdD?*u+AH=qqRFoaiU0^`hyV(9eL4v<R4{%bF
zL#~j_|Lz(nX<;{~K~p7#3Yt;z<aKpl<duh=Pfr@(n|<HltY%C_GlasM(K~L4B;Zb-
zl;Wn^7L*P2;48TK$Z9XH*<%a+sv?^%$8o<7$^4yGSrV=VdCsjqf~KXvLCB@EDx9j-
zB+16xH)FL0a_y1!N`I&<bh%|TUiJVJf%2C$P6(PBs-eHWJDlk9SEk?Yh{{z*OV+pO
zEZ?ABy4)gO2u9^b?e{h0Lu*(s(?V=ZPiy{L$M5B{i@U2kK;Fl_fv-Zz3R;C+=^61X
zs!Hqn_X`w&M-83-dY=N)<itX^3O1b=e^$<(ja*w9uqx&iktjuNURD^u=D~iqL0?A=
zHf1?o^SzL_D|icJPPsO2#bIR|2VGvDIXqteymJk^K4YyJ2%0(b_62SD^UwV|C-eP_
z)P;Cj$tLqV^%be)?yo3kA=Mp6cYRo|zWAG$xJj~YKe8x|xXlha_FG{X-pKW4z1*|*
z9o684+TI${+Tf13*yHUAUTW#c2amue^6N*Cb*DB2fxUkkQsf)1aUOFbZe;pem$V=h
zbA0&`sOVDSgr~YeNYEB8^LNo<G74(Iqu46~kWm}GzaiL3US5ZTDv$O3xsx<Rq~JSo
zpo2V|9qum@Y)G)Bn2Sn-;r&eUe+_z{(dv9%P^!SwO?6o(j6e$ra`w0oNYg<E=i6MC
z$!UeQ1FLCmkYY~XLPTSPlKmo-lFmqx6(6U-%ig$QSxACl3m8b&{)Vr^utWd&<nw>E
zc!v4NaXzyNj!8-}ihz!M0Eb0PgN;V0w#*u&s>Qk>X}qznB4z#522)cY{o_RM7*J1_
z3mHnUuoy5lj$B)4KtD9;9Ox&9X31#}u98qY5SabA$qb{2K6a40JPPGj121y7G&&(y
zbN;Ih37=$zlay8@BuYa~B<}oh_BQxbh-13yu``kkXQBN!-Xrdg#EbLmcX4p4kYsS)
zyzDndVHs8$=5xXnqdEJgAk7)R8D5McH5#XpwgE7cU#OyAa#5GaQ~b0{18v4;r05K9
zbYVjtzbV;%q@$_ATMLT;pax(8vz%3(2mxCxR^>z_N<StatEq1CAor9~*(|mt(zO#E
zr6g5p&h-dKdZ{8+wK8Xb&1$KqLgnKSZ@u){I|=T=*nBr^<%X+ne}%fwKx*l(xAwsA
zD0Sk8f7OpjljY-zXzaU%jFxE!Vhg$iS=9|+f+tbYIcX$wKSrOxyPK?ar(}i1TH`nN
z?A=IisY7pFYEe78=5ej#{_O+-g;n<Y#@xD7iekz(L|PAejlrE>->}`<k1@QzAbeik
zW;aX&>7xMGV!}6A9#mI(6_loGK1{^`areOwX03(}UNy-cVF`>MP*=)#Y04$Y(bK#6
zs_$eM#qSEQ{Wxw28jatxbrx1ooK%^bx<<0_GY~tl;ZS<FPHveaH?JFKuWU=GwQC*s
zOT{M4Z?2{bYz%b&zA9|!C3JmR`ej_(LHX63)W0c-jJG2Cb&{j51)0@O)cpf+#`aFf
zCaEq_qNHJNWkKb+9`;v<VnVT#{_&Ef$+UM6L7mYvRLf8G0fn$I45@6MT5^>9ZLXAV
zwd!Gm^61r7+;y)3BAtQb(t*dZVKXb&z}D{4de{?_e67~WpM<`Ja4YCKXM4ApQG9UP
z;@6#wGe2`cay3YqW+3t&G~x&pKZyQq*(2s3q|LV@IUS`><Y=UCRDx%2**=o(l#;?a
zzly#}R>-8}l&V>9Q<vNA0{hpsAjLz%K!EK6qVr0W2G(`w2%RD3sc_K^G*SM?wbLgX
z@&oaU5xqIA7UEI{@NN<v8>fx7nw*a~T8)OIIFBn+xrGwh1=p7-@s>077+S8xtbZpf
zdV&97k5<uv8^*JFI+Hl*?|?{!;=zEKKV6^Rj-1}wd1=IluLi%yd*|b7)%NOEO9n~l
zztSkz7)LY28%v2JB28XDY&{&fVSXq?QJ8(W?K<c(Xdm6*oL*_(?^*AEV7@4SH>{OW
zK5+WrZbj%x%11v2=BZisPUWa$SG6;erH$q`lIr^KCk=B|kNVa=9OvTsq1lwudQTU+
zj3oxb(;mcu-Lp<;jBQx3(44{fs^V@sZhX@G>|1fR@6@d6AkS9t-_y4Wv3hh6P>7uh
z*fk`|PSB#(iP`6FMIm0P9V5f5%~#PR`k_qUU;YGf4ikR%k|%%%bd}LQ;L&mK=?yQ+
zzA0!Pq8(LiS`;hU>gVuF=FDdu-N9Z+9de%RZ&W&WQ|)Lm)<iW6R~P<K+6qhBDC<H&
zKRzhBKUTnU8Fma!W0F1|7Wpeq!~P?<#_g&xhOT{EJM&8Ve67eOQRK+`>moE|()zo9
zz=2Hb8tTN)kct4PG3nEx(eUhpCKKm67oy!7G#ygzP1!5MH%nbty8+OqaUSjG9Ml*a
zKfwZydCT}lfUrC0iz1cjCDUbq|4&(~E8DK?Q&7mdm1^(kFb9P6jm9{C9mWf09rS8#
zoNYrZ_KmwCrYTnx!D8H;_fNQv%iCkNlT(MW*ry)*4pYPM=r}g7ltLs&3wzxDJ?lo%
z%}#tFNjI(_g<etSQl~T;E{ApQy>+9nTR!<{2(r|RgYeZ^FZ5&XT(uj<#p7y$HIVpK
z(DI5|cc71v6?%8C{)tax-zepmSgtxj;WK3Del~6-g$KTkfJ_O;w|^(&u2%dhH~mB$
zily6@(`f6CBhTBL2zwIb)A^tCrO`(NXYadrqS$`Jbq)!=>gAi>=IkepP=d)<(A4V2
z9_Txfu5v#`T9(>#f|M!Ay0`lBbzt}docIe`ub<xuPh121q7`C0{#_9hYxi5jk#QQe
zVf%nO2)R+$)*f|M*e#5jLANyeGo51oBC#fSzl)CZ#d<_8W6Fku9vFT;Uwt!l9~;+{
znY9}Lb4Tf0y?|pY+dMSICXaJ`$r7n8$T+Ai%+gXMLP{ef$a<%fon7-1o9u<c_>G<t
zwCEuF;bg}$<g}+JK(oK{y2#e~eQ~}YEJu97n;AlrzN7tPsoTEWeu=!(izYC9BBWKA
z`!Ve0bjZ%k?Z^WU)|-~OPs-c(>)i%!0opg~KomEYJ14z<_97I1pE&DyJ{r2qM{;J@
zWn3EFN_PzFe*Y?0lU4T)wH7gTb7Mn7x-+Omdkm{+k9ItAuwZQ4<<p$q=z=*qQr>%B
z$@h^bCu~hgr9xs4qRR+5o<iyoD)}@%27kD2>8uS&H@Ae+i4VKBIDqgM>%29Vh2uJ2
zv8VFEpX>o%&!s}xj;96NUvB>=<To40&}BHw_yC;ik-BerY76Z8dx#OtgOvS--Z)mv
zUGu-*q_a}L{P>A&U$b1wbHMDucx{c)si#C^>@}o)SgHl}OhP*(qry2mU_OVBEamgz
zbR%tNBy6Y3@9E_H^q+rU|6biagx)O6*>JHc{d1szPc{BI27lK!qc~k0<HSv5%5-ZY
zOZ#Wyr}$j+xWw?#tj$4g!{i7zmpyBD%xtxWL!UB^l8a|fSmUSK__`glhZA3X?HNfz
z+1D4RZnZwUIW(HN2*Yr69Ye&4Q`w@|xLk5tA4A)4JWj>yDyU?G)(ofFe2XRZTT(57
zg<n(vwBb=T|0sVfNc4V7|3(NANN}*>Mxx=a_`<=RMg^B7tQ#<B0Q}<s0SCB*ne7O~
z=+Np74lWhL8HC;~9A(DU>V<<u&C-6)^2?DG7k04edhZxTHL;52E?;7-H>DPxEaX&E
zT`|knY>p!-a~7@oNQBXLPYTU)rCz!7Ot0L<vtGH&RIl78rdRH2p;=Co@3ki1&zj}F
z<XYv1C-b>x!Bn&0Y4%&M;CcL_S#Yb@h{MZFv)0#4PYs7RnP#nTHkydHo2g#GZ)~Ak
zP;ZP5@0N*fLCto&)2+;XzSS%EQ0OVRcd{w<OoVqDrH^_g&$Du<SMnm!l@r1+G)q2f
z8Z+S+(<=%7Y`u~<*^6e4zT~=ce#te>kawGF8Uyc+tzylRWu(a+j-Itj`rKS<R^I0Z
zQ@betIMXcp8pV2+#y{n=_mf`HvnbcJi2hlY7P>|AsMKs%J{RaV)@7VVdfG3SyShco
z*;2FUCefAk7DB`HigGKii^}b|e$iaJ=w_;4bj|dJmOPNrEBcVenchV2|5&n|=@yL>
z&7%K6RE1X25g**T3!>2}n`J9K5k}`(l4x43(Zz4R-PLQb(e+85XRmr?zhTO<a-%B)
zx5s5X(=7`@W_o48dS`lTrI9>+(<(a_Mp1J}jL+F3+9Y}skGT{O;Hp>ndz_aWO^X+t
zO!=lQ(rmea+ww9_H+t<6Tt=n7W&~eeSf29@v0mw~8&;IM!#}uV$wGV1o<QmE;CSs6
zKj<raiHo>&2I5x;!B^|v?94Z0a9&6tTS!xdC4=K60@;d@>IUu)0vQ|!QOL?wNgykw
zc4(71l57gcegwKjHFIF;YKIY;4i26PbV)R235713MHISKwE)A?Jr{h;66iK*DE2$r
zbZ*t}F_BPod_f^h!SzWXT(Q-Z<pe@LZo>>kIBXhc9;c54N-%?AydY45N#kuqpsbEz
ziIjZyBv3-rPP5-c$|R;p`x51GgsZ2g^a@g3l{8^wuE?sYq^0m6VM*)69RjIP!BsY=
zl5Pq{AWh;0E8`W76tpl)sHEGH$`v9D2&AC=*wutWnzN!Ll46$!3h8T{P*fskGZw!v
zN;845;ku-davcmGlWa;Pg=}>qDY0LHw9FZWt1yUjvBA_PmA}HMK9wZU!VV#1(#eaZ
z6^4zktP(mcZV0HfNrqeTsI=JLRcWzf&sSDjz?eWAuht2Am*gw9oY=pDHkQtM5-qW<
zn!qgrE$j+807<XFKBBiY3N3oOpwQ+~`pAg11!M;iX-mlQCeRjjpe}({&Iq(ID5eC6
z+$YfTpW&=>>TA=ES{uuk*V}|bJcC1rJVLJPM~a2sRL*5Au`pQ?q_mNVtHT`{adq57
zB1U^NI>goK5s4V>4^fHH+NlzwJtHbH+WvHj<p~mrcn!(8RARL0Q;E^`OC{c<QBEEh
zugjRuc}vtVF|E$3GfWaORY~N8p3}y&+))y3n3&?~0~IW>kQlvq8YvSM)p`nIsxc76
zak{|mxKv_lKMUfNz0f&xV-T$jh)I@25Th4DDlyfPz>0*+jNEIE+9k<)Gfm<djX0jh
ze6@^H&vE4zh3hQwZrri5qQUp{SXt8GhxE9!EP)j$m3kUuEx$^gi<>&=)YX|YiQ25y
zHud>2mRfFKU#eqBEOk5axK!$*K7A)r6I(51Makyqv&M1lHG{53Z-d9`)HSVQaI~p|
zYK)01E@iwmfn54$lB_^(@dEW=NqFEW!Y||vU+8%|=z5`fBP>YdZDtgK9Co&0!5&vg
zPeM(evw1w@yVQ_96UfDCIuzL?1%X^lh1J|ZAb*9(CayOT^7vq)YF!)FL89l%gZ2(i
zI_E9;iEX0#_4%rerKp97J9sm-;SO{=0LBuO`4+wVb_bo2ze%xUzXoW$omji+DiI#A
ztdZC5Q2?3|NR&VfB9mT#Wntdj42c1#BSB!+XzXA?Ku}FE&KA@NZAW4^tZxypyBSxF
z;ApeIDG1<D23<z4erkkv3yRh!N8JrVV_-MnHG;IujbdXET-8Y=ZnD6h`P2}#b*;xH
z0YcFTAqoXTD0HRWD>{Vi)+mXif&fvqBwrs+vqfAi2@s9@9>2V;Ar#d_kI}af=t1i4
zdJWL4U3a+0T46_-8nnYiR5JRQpvF*J1FfJ#)f*vzvgt2|>sW73d!YNp+nomqVI8i&
zM-ucd&K<qk3&EI;`6>ft%y-sz)#xJ_qT#q6e9Be7Z!8<eA`C0p_`01BWw<cqiIs+!
zHRLoV5ala85iT;ST`g-7RmE4ECVGrl4F052=PLv1ME*&n7U#rxYEN;T(aGf;P9}%=
zZUb^@i^$|+Ax0+`y8=47xDLpGyj+>|yY%Se$$cd*+<;zs|LF80sKSIEPDKsqMclXv
zJ;aY2(92y2onFL~8_<imati%OjW0I<sGI@@0OFv+06@l_8vw}oa|*z?6NheqP{pGg
zAXJ-q1B5C*-4Fq;oT4LC@#=;M#Cd$&iC?E61l>4xQ;38aOF?XkV8>-hhp6M+4It`x
zcT)&B&ZR>%Cl4kNG7jDp0uC_DARsQ@0HThMH-rE`s38P(`4n{H<_#d~_;~|}I*#4|
zqK>CGgb?0PGYCVysN?JnAnJH~3dCe5?%n{SiN80%XyWkAF=#_=vJ;nYib2(m$xfWU
z0Y($AZ-AjVtLYeZ{JtrM5XKP0uuYq|egljqzTW_&iSswaAaCm?J8}Pp7$WS=5JMg$
z&@q~P00WFBFTen!$qz8VXz~OI81)Hmn=fDh(&h~qfVBAo1|V%7fiVc=6BvU)UV$kH
z)hpHofjk3K5UPKz147mM4hYrL)&Zf~#T}4xwloD1r!=M@R1@6|sUh0e4v5HCFa;5L
z3#K4jLyc{ZoJ~PYl}$OzHv}=Yv2C7%0f>44O$TZ69!x<@jZ&KjVG3fZCv9GYDTs`8
zFb6TRY;C@TDTt|MYx5@zK-xSCGmt8uf&${a$*V9xQSvJcP?S6i0~9qV)euGIU6`WC
z{0nmw5u9&`VyAUwUWNgRlAmFKqU33qqR2=ea}>kYRq{6sP?S6l1C&k-6CTBVo7Z6g
zqvm%Qz^Hj1CNQ0FH8PBv_hAI1yo^JKQS(4dV3d3i0~j?g!~jOk4>5pI^F$~x!#(*T
zrZ{!phyhL~f5ZT%lSe|q@%H7Dm;zaosL3xe0P5zM7yxziO$>m#c_$`7o%|C6pl%+D
z0Z=y|g#zU7%}X&r+R0BbK-$Suv4TY2ZTfrjR!oq(`6~uUJ9#W7NZouE1Eih277Eg6
ze}0Pr)NbUq0n~23iwV?D-is-elK)}=wVMZH0JWPBV*s_A7h?yCY!pWO^JFMc;{*9J
z23T+MW(=_2<j<I3?dH)?u!2MRGzMUA^J*wylY{v+1hnDcaGnhXZg@1`hJfffT6s4V
z<e_H%jTW|eYrB44Z<t4~{S@kR%8nzIE8iq<vUU$uWwd0;n&tKV%JLP`P=2{q-UQUZ
zQ1ev|;{3e&e6{~&X7SAHhAZ~GaKizoxf0J6I)mHhANZFCp1AauQL*&?f*<e+%g{T_
z@JiNvKUY{@jfC14<5`v@+)g;|WuC3B;ML_4t{k5%_@7~wKa3K}w<nZ%F9mWVN38nL
zigLJLMN^9BM#rIBZigq+SiAYhD!i8R9ewEByIV)8e8&?$6_SMWnIQPI3X0;@lBxWP
zL8#MmQ78uW@FZVpw_UWuL#z2t`s?%yo)(4ojk`@a!?A0d1I@D2k}X?DuPLXYuy+1s
zdXhhCH|Dfu<6zi0&ZV3j`A}X_xVb29LxtOAO5ry|@f#`pj=fTRl%<DaIaXN8_mC(&
zeH2e$;R&ziP&kfsIf4(z@juC_|D>AvDICYT9Kp1>PQ~#?tdmUm2AX_>I_1J~E8e%T
zv7oS=U|9wg$AZG`M7Lof<<h@~%smR5Q%yF#Z-gJ^a)#id`BL~%e&@Q42jPnz*T#s#
z<pRSc04~>YLDKe13@2wODip1lcutGL?-OQJJH8yw_qA_>!tt;0@Y7&oRad>wr;R=7
zV(Yiw;IlYOr7Fc0#ss_Y)_uFr+p)(ayYaW~P~-fEw-HGl|AXK$;yg~X-xN022sQy{
zb2TSUCO63XT*o9fpON(;o7*o4Mm}fsg=A!J5nRTc3;&;F8onZ%?Hil`Qy6_iFmhbr
zR3AA}xZU+xydh@TOuE3Be)+~|lhQr1U+y3ZkHY8y!Ds@Egj<}#={vGY_uz)7F#3T}
zHLvDGuh>tdPEa=>{~-DNh?6;m&%c;i)}vaUy(82uOX=qt-@{PleZr#EU&7yj_xKf#
zu4@L?CX*BX;|`K-2o4&@u7hUS<DhZuJ7|VF4w|UXtjcHHDTXz|?B|24)jFX%WTrTW
zOwCF>`cC0DqwymzQ06FpUc*o9GbjuhilJLGq?*A6hMh;%l1B`eiIIXVajMUMT%;RP
zrDB}ZOt2DXvS)B4OX2tn!*N9SdOjhQ9vDfN;0;ablRi`EoovdCVhIzpI>3mc)M16z
zak5cLQT;P$c)1j28HU+d@S-Wf8ec2A$NQPWjJl@H(W-F|Cyf+V1%BuXUMCPWL}6H>
z2N-p#+MrwU0rLMStX|MM|4@+X^xD4$e8p(OqzkR>8TGH>LOx0jexr{!oa-va=A11k
z9JjhVw<IoyL<iV^5j@76$7z;PTF)Jzj={hSx-{{*x(<q;1N`n}z66Dvi`R|YIuh&R
znZj|{JDyJAdH}+Ba);>3jGM~T8c(T`hvqwM_!3R6>toc!|9Zy~%1CxcsKXmaxJ$1^
zz6^!i7&TLUtL_J*aMC^Ub<3?Y_$E@>s6917O^SE*oiG$uC%t0}x3QUYq4nomKG%Lq
zvMHqwrzjl&MvyK~;dF+r5*&k47@cDo5q*sA1xnR8qi-UIoWkl7Tc`V+kr;i_AF09j
z>V7&3AMJx(NDv=?msgom7+ql)1>fU>>Wpyz#&DW&PPgJV01B)BU|2ar&g)x~8b#rE
z-Dl~>eCZl(63V*Vy+&1L@V&VLfl`wj{0i&`B=DSxJWvY9&uEUG;MlBLC`^C!b(nij
z@gBM8BM));B;m-zjW9t}-W~rzX{RZ=a|XgYa0=-M6oxZ2!=Pn&Q>8ml7^D356Ty?{
z+;&<2x(MaWo^+uR-khcyRPVXFATp%7GTld<6TM|fJz#N{xD%v?BXxxy>n|}pDvw|K
zJSM>71a6X|FnYr5Y=F~glrz#HgqtAiL|&<{5Oo>?CpaOXI%wS#S*<I$YKy`sLoy-{
z;dP(=3(l(hASfnqjjYCJM%=VNW2Y*?jvAxw=J<6|!;d^27s$pGF`pDhC1PJC8PWEn
z8+|@w!KWnY#tYU&n8e$;ugG4ahO4>15!Ld6ldyVUMCvYu-xgUhYS5ai>%MohwfB&I
zp-daYac@-Q`8Fk3yx~P}fVm7KpkUwju2nDN6p^2yKx^)mpl{`(0F!Xm?v#dcZ>+#Y
zQc$LvVcCz22^DFPy+QB(^pet@-c>K|6$$sgSGTVjWkchI2Q#!qz})CYJPJjKPV{uu
zFI)SkF=oiOs^?96o8>agDb2F#@5coN_jj*GqoQ3}WZ&yWzRt2W1^KkMkumWl3h+&@
z$T!&w#c=pP`$gVRhKs)!H%OY(L_TB!^x0z2!PoL{!7<<XR6dtR7&!i-ciO@2K9nYU
z)_^W&O9J#L=-t?S;d_ldo>P=&blIyk-xy`kkG}S<ALNlE1zT5PM5^a0Tqs9Sm(j1@
zk$RiQFBJJVy^VgmnG%4<POq-OAvwywqoDuYtK@eZOjN%D{m=`Ib9E@tn#!W=aK*;9
zHfRMwb;h&4>P(;?aOtK>mD1j^g$zklu(ul6s0hRsJMeq;{yyJQfX{l>2N#5=K!5IS
zj|Xu{GX?vf-V;8K4T-K4aJ1eJgufo=N@{gJc<eQoM7tB@y<Gsv8D*N9OnO!FfwYaA
zeCk!nAMoG?1^Qbr^gnP3Dh0Y{XXIbOJ1~Sb-UPG8t29wOa756=$y4vJ`X1-yhU8$F
zylC_*%PIYOg1L1lxZpofo13<Q_U~;Vh_qhImzVGy8=;?1F?E<g9dJwTwi0IqPM8&V
z%jq1$$?*g$aV~fkB?*Dw1-fQ92YJh>XYmhrlRfYOpBDf`(1uI2Mx#9NZACtzn+%uq
z-g5d2r3^#C3hjk&*<GR74J12w1%trrZwfEe7Ov&>A3QJQva_F8=YmD4?&>Xz1WwnO
zT8*JnnDuVU=LXe!ZpDbY5&n!GT(}dHmeZF$dlZ~ZVO=nzOif?V#t5}uZEJChZm$P;
z{l+4v&Sj&b;o!zm0)wykVT#-hwY<Ken+>;sZaLkdIpNmREvI{3P7r13UlO@IXmSy^
za0n*1qzU3XP8$R#oR6dB^#jv#Bf*Mdv43LNI8Ma}UX~y*`v=8rD49LThb#!}{_V4-
z?nyzgqyOsGV!=nJcS#$fM{W}FL&q04i9obH@*a_~%Amgz6S*H94o=_>=+pWNX!5mV
zlP-H}cZ-1Am$%E#-6B&IH{8`C9gdx=MOv<rrlO4G(^cMigt$SjRh0wBp)Aj{%4u-{
zABp!WpT36sZdNX)xXJ}kIn=p*TfrHQl`{Zd<kj-LH%ef5GN<^K=9B&`<M|wsaH&9_
z_nuszP#o6t{=?eS2yqsvAb;-<*XEmglF&GHnSi$7yyJ?pJoYO~N>Y~IaLy42CSq%(
zyQefoWW50iW6`ZN@RR;nFVcA=>p$4zz%-frkAcs*y^Sb`hV0+|_Q)tBh#?KGb1r^g
z!PAR`LBysSsT&FD^osSm!bbwyrC{e8Vy{*a0eaCJ^WgEGr3k$^>yNH`CTaSjcM!Rs
zD5nC8ul=|bC13Q89`~9gFJ_Y{oaKZevsmaT$dDp_ZxCF-k@^2LCFu?BbV<06qyEmM
zD9L00aQTwcB>r0i`3q%Qc<dc8{w*qVL4ocaGr`vlD@t0Z!6Vu&g-f7nhtH!%B-|#U
z^=p3+>1T>rdF&rKByCv+{c&o%nX^|4cJJs3E~Ao+-amrw*ea$V_g}Sqx1=1NFaPb2
zAY0P(Zi)9)pNRKw3BzaEJA6jh<X&BA1Y}a8|CjxN3mll#_VGwVUnqk!KGTReoYG|O
z-}BtZ2`Q#FzSFq=DVmX>@dtlW%So9A@myoL(x(6Tso!{&q+MZL_A4VPxb|0XaP7GA
z5L3YS$JjqM58}Y-w76y${YFmEVS-#>pss#yHRo6Vt<t!d6{V$m!?Jx`4t5KDKquiG
zRc1MiKWF6<lY9_#u#s(#x^l5?`vgA|p2oxj=+*H^ve9)6j|&i*YlUtuYIH-2j@iIG
zGtu(Nv_`nNLV!NPGkmk5E+TBJvp(MQ&H%2X+?I^i{cCir1~Jy|nZT%^jLIA}DjmTo
z$qLLRc`dWzc;}3(z9Do>fnR{2uU%;CQEH5t3H}+apu+$+UZ^n|8+`v?X4C-Rm;U}g
zTSk<D`GRgR++^I=;T6Ma1e_4bsV$q|=nCON;9E}H{<-ohr3AKZ(K8q(ZMv<%fAM^<
z3z*MmoYT$TkT$s7OvD_tH=H?gX$CKG7vXDMa+rY(@sK#;=Cp%N9@I_lxYMX$&L9+M
zfT758Ap5n!XoBSrqVWIp9)+Gak3vsic^v0O^(eMR)Pm#Av&}SNA>-OPcP8iJuM7C2
zey@6xvfpJm<vWzYKt^dGWLqk-1wyu)P5FOEyeCDx3GdSEoth8ZvEx77v2rs*=+*I`
z?^UF1Pl{}RzDrx-{#oz0a?;j}ZsBL{cws09dRU0}tZIP$#!Iaj)X3d^^xYXrFfQ1N
z@5T6+r=AI(>s7)r{u{mv(=27Hb-6XfogBgy_SX!2vfv#o!pIt&V*fLzyHI}Ufp$Pc
z4q~n<;R{5aR#O21Wtg&8I`u?w7xkzxv=sh?EBu8-g0~!U7>c^e9>kSO2aRq+-e|bw
zt$`Ba%s>cdz<x)wG6c>Jpa1#iJN~hjXqd1RCCgP~0ot}bAcj9nxE}gv;-~nG;`ASd
z(~eSJ9jy8=TNi!|i@`uF33*ffx|oPB(0v~X0lw~)02#OFxL_<BH4wuAilOA09&V5W
zqKxPAF5>!5;`(nC+nK@^J5gF20&@c)P?HWyDrO>;<$<|4B#Zr#`KYiWtWc~e#nMcU
zKc^S5p<tF(<Ch{1Wz}Y_!=4NU`Exy%m`Y~3%T~wau|J~Ic7+ktGu8X6M`j|$pVN)C
zkyw@$<N2U4_O&8!d3k@5PqCNJdurZ>DuIpeb>#N#d6Sili?Oa3c<}94_)_k2Q8>k*
zHXvfJu2%NV(vik(EV;?t>=>e~TiJbqCN7Z>@z;8gvQ)K@kw|-X_OoowH{w>Hgp;5b
zN}OSf_N<U(qT6^L7waV2_R){ZC1*1)oL0pg=U#j#uCzKhsD_JG>7TRd<`F*iu^AWZ
zC{5YCk#c+|zwqE6YHG9}rPJCpFAR#ht0|J?kb7I^)cNoVO6d$_x*H^E)?ObxHTcNs
z)R0<9r-pkE=+rA_Qg6toq*Dt8qf?iwl1^R1I|6uWM^aBAJb_NWfMZ8Gc|2!nX+RE6
z4LW%OuX-AgXS2wFTud8u^5=pj3p)8G4YM_Y+^y6mHlr7MQy9>vaJojPUx}NP>Ga%O
zgc*f?*t8$q7E1>JI~~RgIsh13-i&mBL=3>v41mv%bO7jtY4+O;fJ;FKc#%)h5db`;
z8)<b=5fWx91FacUgfidK5$ezxI)c#WRW>(7*c6P8P+vW5f&eO=C58yw(olxkGRo-)
zFs_ITDg_~DMQMgWTpB3|uW@3aQF--BE*$}C5UxuD1g_BGW0FnH5a6yCGXyhz00h33
zGLYe=dY_blApZ!XI=+Vv0eiEMrJEHULfBfq@Jx&$NTW-INHWqAP=z3Bg$h9&<i4^H
z1u^Il@oJq=_pZJ&^_b~}fB;bpA<UW+=8gq~ozWp+AJ1`2v=b~hb!(|WP<LnwL=M+^
znn4usew7(S3HKh-A&UB4bUK8b$BYKMn8+Y#mkz;yhBJr{B0!AVNr3NKwuu48thq&+
zjv;1}4P1{y#}MW-f?RD=3`oZ^#elRTLky}jtAhcFCx#eQub7HKRdp4E>K{`vs7A1h
zQO=fz7;DJOGsK`;V-<sHOI3^wq_r7hye?y7IkskcD%K0am>FUi>X=-&<VN;GZvM^e
zshF+B{dRN=Q4Q*9a->YQhIU<G7}_9#5yK0;h8TwWAuv+*Vl2m6JTGgEVPeMw26aiO
zVi?*nSdH<D(A)x}b~(1*Op|zKgb`0;zU`ps`nYn&^Dd#ED2$aw9a%%h%BqfRLdKmX
z8LZk3L8dWrqEbO}aqqt|2wdoI2x6sSH{u>~I*4>Q$V31#NIPq~h9HG_kjogvtYK4D
zK+Xp71b<vRTR}yr{)@3X{Z1h&g#Z#%qgY(KC?kUCDAG$ObFJwp@}O1tZw+d+$a2Qb
z33Xi(bdN`P11(HY<N*iq>@aBKJ;H)Lu4rDO8YO4*couPC*fSkPY)g2(R&iO-QN*lX
zO=WbHS9m0ft6fAp2%D(7TP4^V!f@TAdYUJl!$tDsJW<c2syB1+Fz(>Z^h^q&=-}9r
zr_8rh?}<C;Sei{rv^6zO<4z}<a#xAyf+d~23*P{z8RKU1i1BHmzhKo2N26S$OHw=6
zkzX*$H8#1R1F4e($@bJhZO;>(3U7gkJ4aWI(c;sUu+5b1V*><-8Za=ZE5913^$$?h
z(NQ<&&`?CrNev`tjAoP&fLzs8C|;-|9&px3wZX4PKOITYBq5jqk{BJ;P+1uxNj->?
zI4bB!Rb!X+O*M3+=9G!N7pRdG1*ckpw@6eo;O;tqs9OVfxW`r!2e2Bz2QPr|O%L%<
ztA<irimK*A)wd+@vgt2I(gbf$TTy$^+nvPeF<P#_M=t9A*&V&vaDr8c`6`Ms&Frjn
ztAS0of5UM-uK8-ETr%<6^BcQLFg?Rc(g<EI3a9ncMK+*o<Y`Q&%~xbvQUqnYwa}w&
zpEL>t{mrI{MdkGt`TfQ?`N|4TBEL7r5s?@sIG*BLwE-m8DHebrTgD2Iw2&5n#4^<e
zkl1|L0D{aKJ3!^ijvmPqDH9-HNxiXxBz?*@kVMp!9i-;M5mO|Qreg;QGIp#W$&H~6
zB$3Bs1xcjzm?4eS>>evnl~>3LlsKWY0wvRbtU$?3ATy|OCn?AZR+S%Q1*>xGSi!2Y
zhOA-n?WPs1DwoI_mhtLm+{rL9!wR~|M)trGW>GTZCJS~P+BU%I#3U<Vb&irfFbKo2
z0oEMN*#VPDO!mOwxX%_Cq&8UrtFxS}fq_@w8kqSqHRz^6SplmvqO5?`$x&9o>O3iH
zV8YvP3(T6H)rnMA!0MbTGqA}{dX*KlCez9aT9b5T6U}t6Pj*tV?4g-!+hiv}%L-bP
zt7QdEIoh#-R%dY8LlXj8L$lTkO^TNlv?klj3R;u+Wev^3Mt`!C4rUEagaKPalgD>9
z(3*TPD`-vXm=&}pi_8jIlTc=aR!4TUxn)-1+B7pOaBaq!6}UF}%px4*p;?53lr(#A
z=KkI;93-mQgERLbci_y&SO?DBo7{mjx9U4^<!osWP8_=0gEOCWx}k!`^F#+u<igp5
z6KQew;I`IAMH|s#56+$%D=|gZ;Oxy6ZDO4jI5phG23(VFXAjPv`D~N$?7`X7yEZk?
z9-Iu+vI%F&8n?N7_TcPU<2Iwu3S67qXA7>%^D~2U-lY6l!BevTtl%k$fL8F-qyuYs
zGCj~9p3D@qi6=6`tl`=251C461y9K;w1TH37}~>=v643Nto4VIfoKI!Nk+7S*9j9f
z!E@iHC|UtjvlXoXs)>ts06XEt768?BMoWNgW}_8AHObKqppx%s1yD_Wv;wGRL0SP+
z6C%w3hkJ4(?IG4_l2#Bq8Ix8JJIRw~h~B<DN_&uhK*}b&(h6iZ(b5WJH|Np{WH<fN
z4rC`2(+XraDbosMH$T%1(%+k^X$5m9YtstmP6DT8ObcEIe{Wi+9n5ZqrxnbdWKTPo
z-MmjLm^&$;W|*V>*`QWHce9MFfbQmq+5z237qthfWR6+^-Ay930=k<|Y6WyRwbVAK
z1p_tOpKxjhIzEtlY6bO88mbl4HyNpRP<NA4%}|3wd8$@m-=?gZ!A=fluNvVF2Zs|`
z&47nTb6SnCJx43O)r`kbGt;%=^1r}B5sA2$0pkyN+T~kobJ{o*o&87nZ9c{+X}pt?
z-6ZX%`$Z#+AP%<W$ReTter4IlK(O`TvB`A$fB~IzuCAn`Yhi=CaQyl>rk90%^~;CD
z#e<g=z<F6>iY&CE<u~zL{PhOiT!*6zU>G^U5lCS~uxS_%c!9EeN)SxPG_ZhSZ+tRZ
zQ5WVp%BJkQSKxdlc$tp^2mArfs2WaDM$fML*D{OFuIk;y6cL!5TX)F6dLRgGC>J*9
z5nwnMY^j7}TK%~!78hTFpZ~u7ncjZ~c7zGC%YM0(z?c?Zgp&kC)MY_b0l1q1xQKsT
zvjzVEufR(Zp~A*lgzQ`PUtok_G}@P!4;H!)r!Z&m!b)LoeS<mwoQa#X1c8F9`(Z|L
z$eN8W$FKXxdk6r?N&E^aGOQeu0)ZljS%#*A(I~Lok1=M9NGkqi@dT21hG?83|E7L3
z3e3qT>V|1-b)y-M{oQfS(w$%hq*l*Luz1|lMr)W?1gGVEhZK|DF&NI+m!O25co}&F
zm171f3dVr=Qkt&^%>%s-YsG1Pf@Jvp$uP{0Z1^Y1Mz+qz@EqA_*QMX%t1Jim_Jmu(
zwEkE<ILRpP*&3!FX#@}5Af7&5XC$@>=}!4Gm?RSzE&d1F@y=>H#X2SMjN=@90Wu4<
z*M_Q;Yz8wLU)D7M`zA2IgOKfL<!hrAm;{Ul{oXY>+su$OFmJB~KY&lyjdS^M41TvH
zbgb=<mxx1mrSx<5NMdVhdlsF$XF&*LCTbX%4(N3ykt16+b7aHdZ(2(ZN=qKUek%rm
z6Vw}x?QK&T)-rn|FlQ?SP7>7Vezl^){P2%8KVaX|AMUmBAI!!FpROnSO$;8{$p?Y8
z0KZ=z_L}(z&BbAUJ_t<wSvw`P^tN+dY+j8q2G2OoI72b04u#b~%sKUNVpz`tRe|oA
z(=}Wn+@9u}S_3{X5hRGJA#j2-MMRoHB?Nk5f0YpP@`oTLL|p!eqlCajH7bU{L<y1O
zWj2*WR7(p^r}AOdkW3lEN8MC{OygHol>`!k-;^NfGEr3_>M8`Ksw%}(q7EU-kmW=k
zVy;IYN>8$FH<Jdfy+uB{?d?wq^s+<+jiqhL=Aap*KxHO4RraW2E-Kg*Q~pmn8%|?{
zI%;#I2h;0YqNkSVsbzX<%!+kj%#B&yS{6u>Fn4XrYI5#+ZR+4kuhqg~s)Z~4PzP6<
zq8^Uu;g~(D;XIC;z-+DsWC=BOftD7qKxwQ8q);`f@9R@Zpue#ps7d;5`Jstq#itgM
z7ol26UW{rXc~Po`<i)8jQrR5+wpdj}4mXNcJ!qy4t%_JJXjRN=L93!x3tAPoT2P{|
zS{1um(5mRwgc5BiFM`#e=3uiJR>T@x^{p0o_e4Yq+|;{@U~{|fRYY4mg{&65t*6xB
z4!;bMYwOj8x=L%=y4<VlYo*pokt9moi4u3F#4USt;in6g(-gni0hF3&O3j&FD>cVT
zu``2IY0gYhtvOL@zMRN4AFeA~mG)&ptJvOBX<wGFO6^(I%G*EopNRIJk=ysI(U=A%
z@b0VTF4HNIebgJVaI86ectQk)#TYmDt%TVf%9*d1=G=MIZsEMJCNXt_nBEeHy~9nH
zl#fYxAnVg~$@6_buEX`4xa|zBsB{b+TiEeq;lFk63&yakN_j@$JY{csN4vUTpGD^Y
z!{YC+YM3=k&!l9xldDr|dww~h`4vh|uqqtm8Ws)9XmidLhGaNf6dIGeFeOtw5e$_j
z$%6zuw)Bvf?dDgH)-$|axXv|jV3Od-EhvezxqHuFG{uG#SC`X86|Vn)`7don`$f&*
zNQN5;B5{O~D0H|xTvsyOCqcNbFx*HGi6<F}$Ra#pBojd-zGNh+AQE3<2>Wb`KQ<+Z
zbtoC@FF~xs17mG1wL4ZR2eY>wOu;^Fkri(nDwNC|7Gw?{m^uEym>_c#$ylESu}%()
zwRy};5N&jrN_!83KxcZG&hDdb8&ZZBXAMbx-^<B0-*pcOrJ#UeCS)iC409oaXfiwr
z8CC*@SjdnG7@ma;v4CMAWOx!VBtiy}38X>>(TvK348H^nSjd0{47rfuS-|ijWS9vU
zh>&60!*J54YmGtmcr9S1+*ux(HtOej*(H7s*_Mf>`FV7`T9@r8X`F2dm-o+_;%Xt}
zgEV9te8?^%2!r#B(!gst99a%?u(e}eR5wC0zVdpo;d>0nq1-k+$VYd1*H(N)I?eFd
zwIrhqJFg!mxIA~ZF7aDFI$kdhRn_fmsrvU3N27;OGQ{Tai!)V3y9Zoil8rgcF14%7
z?yQEx&UVy7u)9NGM6G}Bu~ao7w-xGIwOtnsY`DEIagitRm)y{A>Usz1I=2ypiMpzP
zkg9)!-w?S*D|O-FVZz^;x9bVRgM{6HZ6!o@c-K>~by&Um+1AqoMUy*JuisRi30|S8
z72ws8<jh_<lSJlSbR;QjL+agFyEree=-pfXawNqKV;52hCvsULRkNYlyItms7wzdT
zD}gEy;Mba^2?s-U31f3RI*kM$^!t-aSiSSgdPR}-12r@2L^0Uw7`oyxjQWuaHs=aw
zQr=l*6^Qyld026e=xO6~8fWx&wpcaEpLv(yZl%*#-E_0;+3O8w=P*T&<^7?|Hjh*q
z4ZF;pbe`lnn=ntrS=D4i@E@h%d28iD{0Dg2y;<9G;y4tn`6Fx#+dPIOn`J9Y&1`0>
zviqVELIw@C<mdv)eErHc5PN{cl9d!MludV^)92_4{AYeW-_F&wq&s?dPwxMm-Cn^U
zC<Vu`Kv?iFqD2|RuMc2}ge0Ts7=D4SXbBJa?ceXh=V}_l^qxH53c<w$qdbR_D$>B^
z2=-wZo2TFThOh@E2r7a|vz<UClnO2KVN_sG#pr6S@|Pi85hJ@H_>@XWic%ed=*0nG
zFu5Ta5rQn+d4*()a*Y&$jPHC9CX^`-RrSR9UOn=_+Olj2&F{|Pp7tO6637y<J$Ta-
z3?2+7808!rmzNMJH+(^#4Z1ZX?C^mglIL6Z0L~8pD-Q6JQz!T0M%x8?GL!J0=<%K4
zx(r5D#UakQbR;<Mn;l83{q2D5ezil!ov~|&O(jv#S$VP~IW0`Vgd4mr7%#~|UG{~~
zmV~Jb^|B*r)yodpu9qD$F_KUqH`(6{_S_Sl+*f5nc@QjK%nD*!hO(722Th^WSys(+
z&K!C;N0>#S2a*^JC!s;?fy75T)JHnnM>^U^I@&`z5e>rB14{}u8_c4;#G-w~0;=)j
zgT~az15GuCe9-twih4>)(qCk7y@B@QjrQY>_T$aj_1l5Qi^b!5k{F)VSo`6Lo6hk-
zq&*R(nczjWbue6bP4LE<3Jlo6#Dn%OL-$V;yhZ}y!<N_KuB9h#QXkGSFG`vd(VWuz
zLBsJ8l{Z1dL*e=nM585H=v8eK%qYp1kY<o^W{lrbl=ovv3n~kw@cR9qn{$LBSW#{c
z&y-PRG)%`@;XuX(CNMKc$OXb1E37%Q4nQZANxCHP^=%D*d=npp?Q56jMr~#aJ~Q>2
ztLAepH&-{)fB)P4RXqHF0CPb=RnJ%nM3qeI+A1#6+5QV)<hi*qc$9(5b=5`P$i%sq
zP5v;wWPYA@dg@Vz@C~_&6iuU5@J-&K%{2^0uP-|h%q|3wV9vHgC{U@N27U{wXpWIM
zrhYE*tWe1fm1T}zs_%P=$VH-OZatmqqzwAR^NA%Gf1p1Gn85TfR4>O6e_#wIf=P|~
zE(qzUCU2`A<NnlgTv;x1c7tK+k9~YoEj%r5Xg7<3?kw6@W#M_oI1yOd-d+!$D~?Q^
zMj#&)M|Vt~*UoIUZ46#{BtO&QYxmXk-F4hpndfFN5rl`<t=95p`**xreU!9s2+?t3
z^0t}yZ0$*XU|Aar_5u8K51?-c6*hlWI1P&$*%=bdM$;yl(&`@GDVqk`N$1H*)oug|
zU)(2NDXaVUOU$?^Cts1MjxM)PA$i)9Z@rM8w`Avw`^1tL%N5<JfezqK3;lA~OIV*+
z{s-u-?AxdpkOX+zrIp)`n=lZD)i(;KEV*20)TY`-RjW#EZ$=X{*;s&$Y!k9?UqcdY
zqIRXhD=v)Cd^6)Y{J{6k_PBMWm4p2BL{FbL>qm&9&S(KG3Zvt!Lt`n5b|`Awpglmp
z*}C&n+WPTh@%zv4rTy^}QlSl{(viur!p@&I?}%#LHI#q5yqv+}7bMo1$vBG21DcJh
zq#(Oq7b$#zkgVQJ>5WLU0xe$yonZIkh+l&hslFwHj#lgI+ocLo{91;r@LuQM|1K>t
zUhe&^xlQUlz4<4%um){QUbuMQXmn7?XX)&s$mXz#(7L7yd>&Fg&xG>}JWfTBhfG$a
z+?6?gWgxyyF)Yj8SnZ2u9U5n0knRxXAs*WU@?7^I7fC}Z2+YQ^g~iOqtOL>MOAz{i
z)e)5lgLAYHe&JkNptf@_6U~{;MMJm;=jT)LnXXsDO&iN+3=Wss=QD#gerpV2&1RyT
zCF4Vt{~~nT`YmHacXGm~rc#dy61HqA*)>|!vs1iREj~8M4JhrvcWnmd73Sbo+ID!E
zeh!v4qp)KGw%_mNiOprUmR(4|higEkh5ys_hL8S7$+>L2xEV5kD(6r3+{Br~nxI!s
z`n+jqq$1D;Nbk8W63L&Obi5$fIGYxMZ9NSa+j^23uJv->GA`$J@H#hK`_(9rC_KX^
z&WneNt>3GLPC&+J^A{x{E2M~V)eCsqwOVU)qc#+s{v%_+#vhZ|$)=NLx6O8E+b<dg
zgsm75(Zfml>nkv8gTX;BPiA7`aL&E==yi1^@Ymzb<L;5)F#Lw^9?-*=`_&cjypoa_
z<S?dW8l^DHo?*Q8f*s6o0yzRWK?R>&hu}9*6Z~Wo@Cn5uzn;r)zLPB~o;XD?f8^EA
z4clHVumAb??f3lYZxF<UBA;<O;}l}f=C_pO^7SZ{pFn;;kt_#;%Ta^#2h0(LnY}Fv
z)D&`Ic2S$%{qcEp)2^I;f!+*Y0RU#e2s424l7H;6%IZu(^nl)1loA@S5*Ft0MJ&Gt
zOiI1yU^gTEAv`pU=hb0Lx#4qW0)PIHLqIkbF4hKU904ZM6u+ay04;3L)6}0@!DoRD
z9D6e>xSjLZ&Us<yys&d#SUK-wZyH(QBOnS3ys)${?Cb|szqcch`dblHecz72HUw-P
z0>l3yi&hMTtp>tY17WLyu+$)|N1}}jp|E9`?HkgHLReEAQXa_?Z&187AZh0>I<RBv
zp@EtiuJ{o{92i+##2ZLqET0>wdKwyZ^EGc$3bp~f`o^A%!>!x`6otKC$Gp{?<0Kbl
za8%!+9F(C^Snwp@_9hvL<rXLbkn1AzYNWJtR#oIs!m5m=h>>h(;BaSjsbXFT)>L#R
ziZ=>NJy0a49s@Ocy9T7*?Ly#9o`|3^y2Tj^O2{|1By-tyWf#sGp7m%Di@M)`rwFyX
zt`6>WHd^cW-t^-XQ^rBH3$h^T4I>kh-iR_F85kh?EbV@;kM4C#1BwiG+XU-Sgm;vP
z(wkHr1H>6&7A&nf-2mP0*9P!vk(O(MIl<}pFrZi@D8o5EF54y?bxV-)uv}+a9QRdy
zuGJ6*=+5kKf^Ugv0H0S29)%VToVH{!I!m4%1<KH&g<2KdYA#hsr;U_B2AXt-l`6`#
z1$qNW8F)HsUdMso<o2UIR8%2t8C5ZJ$Uv3T>%yd|__*~@g`LX(sxyW@t9BX^^$VYd
zM8Xl#P&w3;sb8NnWEv=vnld?y4m*oZIEzj=i%z(TZm`U1N;Od9F{Bdiyb{j58ZOD2
zat)RB47mmiwWeGSW5h0F9I9d(atVie35R+Khk6NjdYvf%8<Gi!WarAlhHSzm+xcR#
z5nm^7He;~Ot7i5Ym6QCgS7YYm+2!f(QWesXT^ZDhP!$vHw_(TaqcX4~sp7Sm$y$P9
zK^dVsFgXkF@6lA-Mas3H-HSLn(D}h?ObU(*fi%$mBtg$&T`L4qjIspa6cmz(;vH`4
zm}*pEN@%QOdoGF=MC-s{cK$GA>ebH$T0@R^2xR+F(HJpnj%cqh+14!MSEE7)SECN5
zK6Tlf)<FZ-7#hBnHE2Ajg!yGXCRv7J?oICtPVOtkIH3zH{{V+w`=~P~W%0Hj_h+1t
zhKn7dJgCBNURvM&^k3lD?JWEPLdi&Ce}`iK2a4<Xj+O7#DyY<Iob&V=MaiS;4S4OZ
zy+7F<+};4$(GHv)wi8cGWjfzeNXdePk}_CUzpAIk*z^L%#=E6|5wSbx8XZY}ohT2d
zf#>2&b3R{UR%Y;{dTwk4R!XYd2`^zMTvqdV%gXGsW7TYAMEVn_x~|csBkoQ<?YI`s
z;_9{Im13f!r`5GRYtPfA@-+yXnP;VCMb-CP7pwz1kI)86{bHV=6pBppH=oVljg4pZ
z>k&GV#7<}jG)XL1ELYh~s&>ObN3+!Q-hhsgjmG5w^@VqT-qM-XHri*_I$_|;gi%jh
zoiJW5W2ionIWeStDy%nhwik)y*UZ+5W$QGSUgKvPk?3hOa<1&-ysTI9y1!bdIyFm2
zxZF)-J;ieU^YU}_ab7OILCWR+e)T#<uZ;zwcqXgY9>ksB!v;!ww|iojPMz-2Q^oUM
zJt3$`wa_LNWA<V6q+zB(sO!WXo9M+LER*Xq<MZ8~)|)iEUuh!Y`)45k(U|zKH{na_
z>hpgW!4s8_7Mufk+Rc<}Z-OushO>Vph+IAj;_RYinJ#hra#CuIL~geAlKuKoojMjS
z8Xa3m2r21%p1$YpffwX$M%)312ixFrNQVRDc0o~6mJo<AVTtMqTL)tp2+DA1@U_oV
z9H(x!_yC9PEAT{xfH}uu=wq@hQ!-CVyK1F&5T$h@Q?AvXMo}iolE!1fD2|XP4v)i^
z-JbpSzI}?uub`2HQB9W71;c^h21&w@5}~_0LF3t8$lB{n7^SXG_sidmnet8}B=!yp
ztLwj8T~YfiiID7rNZ3z1ta<hm<hC4>(Ik^Jrj+BdpxxIYv(%w;dd=p^>>iZSSWVEJ
zZ<JYlqb}yjkDBJ2ha0p@cCE-F{6`kqs5C`>V@Ov-i8Ku*4JrcpsGW%&G^258#RcXI
zZ6IIr>p12-=ZbM+-ZcpQd=OeT{$D^G@<><2)4W$aabY}<T$@pKB-A{Hq5#Bn3tV77
zq<euW@=%2a-#{yMGo{W~xKPO{+9XP?XUs%^LwA+BDqUrJP9<u4$=5d&GA=B1>JX1_
zs`d%d%JX|-MtItb5ArK>E;cu<$SW_mj4(_pi8nMZ&C5*APf3l>Oi9fvF*M37j<3i}
ji7zfmEGl7)C#c>Osy;bCuOu_CG!+2k(Ii{|00000oF<+G

literal 0
HcmV?d00001

diff --git a/default_6973024718447691066_0_17838.profraw b/default_6973024718447691066_0_17838.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..e1949467698443847c6d65083e012c14e4bcba02
GIT binary patch
literal 245112
zcmbT<c{r6{-#304vNIH!r6|QFnJYtNwk2~iR;1XH3?WT2rHu?xW-`T=u~H;us_fEW
zNC+81J5!=i#P9jt&$YUaXWjp-WA#s$u8!CDv)-RIohK6F>+0p}eR`Fh;s5>;`_J#b
zg#Y}H|NK_O`~QB7`q9a%|NA$q?N|Tj7j@}2M{@A$s`t3w9Qn%sRv7>DN8mpv&eGf8
zrF@hYD&*E+ERc0HLy%qb|NkpxmNyhno8~x)XsUcHiY&?l{{I&L-#=ON|9;5OZ5N#W
zrBXyQ{$2MQz81oo!2i?<{k8w~A*d7lABIxa>c20UW*8pZWKg;0LZcR<!wi7`{63_6
zylH;=b^q^#(i!%LOFn{#4in_0g@wN^lK9*icQ0|H{Moo4bi4nXKlIoB*N1RD`>E}B
z_&ykJ5cVtanl|9`tw(g=oO3Sam%Ursqz9Z}Oh-e`dDo_x?MuMX!gORWgp}BiT#y6~
z1Ey0aIxF7)ZQCv2)Z3!v4Cliimhkf0y%Xzz6O8G^Mb&m>a>{A~M+?(gY(4sCEK1wF
zqoj3v#g4334497cH%5B}J-1uz;!H0-nd~>Mx53LNW%AwY%?<g|zzN25#7%==eq&`=
zjw^DtWRN^Hr-kYKk(UW8&9*<x5qM2ErBmz=1E$05^zKqw;f!a_nXUY42F?uihw<|1
z**sdb=cUdYzA0rx^_5WRU`*$pkZ;8N$?i9^-cFO9icDNun9g2)9m6oP-d5l+U^;dT
z2ipybZiIX6HgO<rNNB3JM#~4@pMMU9{@HLbMx(2e*R>!aU5J9{!297-t%z+(rLMd~
zOD$`A%sfS$5FL2ED{W3M$?aS{Tz#yKr?M=JUkuY}s^D7N6eGQ#CfLZ6>3pz$@DN%)
za6M=L>ZtZ}iqb$m*_h5ucGf+QffL_BJx-WTTuw!YYgB0A#c`L}lewBfVu%hmbfSGF
z)jWPa?dJ~mL)>}_x_=~d{3Q(n2elqJXBn$+&z8r}vjS((3a?+TCktCCVnJ-c$;Nct
z)Q1klnqB>OemP+}0c8{S3hN`IoxDYuQ?6d%6hn0EpnmPz&p&Ni6IME`tGcwk?1^|b
z;<|v>dzW0(S@Nesh4zKc!)9lmdy)|y=-SKBx1M+}ns4BN&AB+5|Fh9%-1UB<Upr}s
z*TNS518)|matv;vu6J-R2Ql%SxW-Q5ZaK!)By+hXjovJeI4*b|)(UWhbuw?fIp_7f
zsBt>&$qeH9S`P~O&+l>79?fk9<2m07$>!H>rlSQh>$w_q)p29zPtTsA<4hw=d{?^>
z>tTiJvH!(eY@t=NHd3<Vq`7}q4-L_Q=g-+ViG2x0yY4!!&t*#TGk1+gbii{9C~Nc3
z)BGMkrV8n&@m!9di#h3t4&1LtH*7rW%-(ZOzn`Y=-0;_vis?*V$Plb8J8FOK!wK8r
zD7!;sOlPOi%Bx=^cN22`<+lDZznw@#bT~jT|M^`w%P1^kuR?tP!0j~hUTqI8L<fG}
zv3<{Uhfdlz!hdg!@S4cs!-eR;=R14vQcbOR<x*5(Q7HL`#uqx`J_h$IP47%|{gocO
z*rQLmtLkRoQV|^%D4%nio{Mg@R@y^-F}vxOuxkVb(ShglxTB$ko)4Q1?Yf&oSf}_8
zb3_Lo*Ua^+`6o^neeJk4TUKjiG0TPN3}0@RkvwPP_M+Ty{VV<r)~%L!=iqnJiNYSy
zG%2!Z=`PPN77_87&J=rv5P>~0ft0`<B$<Ai*BsGV3-!x`>BuI}(db6b($m5R@}mS)
z5FI$@{Q-mCj)I34s{|NNuBVvSELx!D1FtW=F57UvjV}dH40~>;pLj6Bg;)<ff2fLb
z_w|olW_(+fZr8nE$GjV{9(aGYHCwVXUjHn>!l`k!q;LEv4bg$uyNMOyHvRj--lY?T
z<A>XRSfwC3+o665{36qTGt3V~TqBJ~@n<@CBjyA5OaJXi#V5wc8rR}{$3z?o<>fJ*
z%b&jLd*yN-Y2HJ3c)mU@e+F?}a6RF&Cr01g60HvIvKIci_(iY+(;?qW)ml8Vy+uVM
zZdTd2{INHp1Mg#+N<LD88Ukl|A6{YHG}5@+9MOTtB{nlnsJ-6#IG``K#QaH0Iv1vM
zSW`~QSE*lHTupy{OCnvb)f{bo!Snf)^lRqn-aG5`RQ3iaCS|hKBRcT<DqbrzbhUF{
zR<b2sYgPFN69v(M>oHnqTVQo+kwi&1O-xEw{}qVn!1X-V)322A3oHJa=6WNBo8Yg7
z=)nE5T5q%en8CWMwXGYnD5D#C7!VzJT<@in*ESk-^wqKM+RQevGkC@ftzYoIA?qTt
zgP${ySwQ{Mv7VO%&3Z%!el9Qx{I0b7tlZDbzIL|>6z-qZhz^`j(+%Pk*M$0~?@peQ
zK3{u8B@okDKQOO+P^UWQ&o}41N0I}<Du|9Sv>*C79(U_^PT5Vk)?mV7pxBR^4}6c>
zJ?qG}wx96$_Uqjy`d1&`OhK#%KEGt7XAOTP-(F2jZ5By%yT7jj(SdW0Jd$P*nHT76
zHz}Y~U+r_m8_`(@<uft0?N}9yhg3CB`t%bciOZ-CT#sdmY?IO0df`Q@(wp8aOq%kD
z^}x;@uFGHcB+isb-;fvU`TZ<##uRN`z>aD(=dj8}nRgvU$G?1QFnCmf=)n7Y7f(t}
zlyQEZz~P(o%(c>O@rVvwk9_q_6IR1mTD@;eZdRzTwK=BqZg6IoQ7%ooE$unYp*|v(
z3(?sM_5J9^I0sVxtXtfdzd1K~Uwv*xbl`FEDF&6i=;{Ca=Ts?I%PoQ3xcSVK$CB^<
ztiJU#{Lo)seX%~=eDrKr|C}*)Kd3yt^ZcemVTP#rutE7uXO{L)7)f&yxz2B}-*;h1
z5HTP4+{wxB^i@Cc?&Ur6>~#Idy~2YgX!9AKhlcTVp7I@{<u3I_?)&A}Ce$N3L}*-X
zYVUW-l(w$zZ6G#2uDSZP8gX23-`}a|=*YKmY^9EV@i({-Y#)f|!1?UtaEZ0{OD^*d
zA5vUa>{+XY>Adj%mOb&yz1xS6v22&`F9HG6Ngvs%bmu|PDtHgsikLH;&kcLg7Pf4a
zN#Mj|I-4!dnMfSneiS(7n9edSbtU7TynoQSp#B*Bb(36}4yDPG^)g`(soPOcDu}<g
zuk|3>e1`K03%35KA3uBLnN>oQ?)?04Jf;&cv!03RnZ%Y&!N#wjn|M4h$8-dwlP_`b
zHtaM{H+uB$W^6GRq65$8(lF_rE+3zXDM`E#QA~>Z-EEAQj{slGr|W|T?Tdw$quSmZ
z_M~7sk5<+Ec{XN@8QuR|#Ot;}*A~-RN)hVT<F$@C%JRu?-?GDQK}?5|-)!(jD%z}#
zXUB1te%JZ#19<tQ+%a=ku)JTpGLmO~?6b~f3Z}DDUp28cVCBW6Q_d@qpt47{hz`6z
zTj#|&MHtn4MDeUnRQEq9Q9*Rzb#Z3o!;&IHL|#X}TcD5lWy3`yw0z*_0v+pbd1Luf
zCY2E`ky;5)lxT<!T+e(@rNmK<t=~FNCoO(u<)%;&9k`yae94yAE@)*foFASy+ng<D
zi|D}hT;@poI$Rxpu;*mk>c(ZyXM%_hd=FpQc-CpPghk9knz+^Hl@z}`q663CqH1I;
zG(6KL6w9{1HrKy<hJ@BH`1zvLmVc-{;%jianS<fi-rPYNq661+x?||biFuyS8w?MN
zOpoQrP%xbrCuhpon1^giZI;eyhX3FoVLHppE5;_Z;g{F>U#=WD66Qrfbl`n;)GzNZ
zTWq$^ZOQWULFw<;w;H153_Gmp3vX^dpw%+GJ9{c;-n1kI(SdV5*kFIwF3jLDL)5*a
z1XtU5TTG|F!RQ{N2v=0&C!ulz^Uy9qOy~BG)x?g8-4(gd_l8|5{9M*;fR|55%-Ka5
z^%HMDk^){I=^Or)jp)Gnh&9BVjF|H9X>z=_-+#^FpH7(0wUIr1Y%%0N)-N-ICB`DY
zi6J`h{!Eh}QLSx1?yfqwgO*(@_M8FHfyX5tWRh#`v|!*^^z`9(qd$W6`e-@B?^}*j
zRy%uy*w|E3qwg$!?_jG&bl`eaI(;{t%-EF`Gp%+`_4~~?frt+Lo_}*(<@gcZGZtr-
zT(s`xYOgpUI&eKP_X~;kBf)AZa}%Ea&Dt?yhz|UI%uH^d>X}peUri6oC0N_KD{vt?
za6P(3%GdRMKc;Xz-ONp%R@~UCht@Cnc`#eEBB$dK`@*Qe(^Jo)+6}uA9k`xQsoe=d
z8wbgfV-NTFoB8&nAUbe9Q{xE<i~F2;1m)a+nED$XqaZqPJyy~o>!Jm?rDiX<U4OZh
zdX$9d!1LL)y^H@mi~N4Mmi=Cr9Cd575FNOlbrUaV)jodHs|eKX;t!gsWx#ZDzn&1D
zXsr1vW$sY=qx^_yy)Ihc;d(l|9~K0$eQn*Q+s*86)>;&d>DYBU-{0>ZW~&o@Lyx&n
z(_9PFG0nfxS+gtXxmTj1Ym7>G2m_|`q2pdta;wr?gGYx*)^-m*)$8Epqa*xd<NX5x
z(V~%C<V_ZzmINa@@cr;^naDeT9&Y<^3qI$l=d%Llhz{H@|MMcg#Xb*fm|Wr<`T7-@
zxey(AKXemRFmAfCnC5Kc%{jPFuYXY+Eg$&4QJu(fe#GdH^_z@*g>bcG?RrE9z8{KO
zwvU@}X)sprkMG=NS2K}<=)n01e>AyzKcd~KsySBSPW^!}TSNz5?}s#RP%?)JO+_?r
z_oHbH4d#drTu<G4)d40agLsLyZ#$XXk4bPLI`I6ds#&==oO?au&P^)whv%F52DR||
zrG5DH=3C}PZ#$!;<}b?r+(t!o;Bl!xsueCXR*Jth{bKFs@4ljBL<b&MfW+OOaa&F>
zb1u5}o9+?YsDkLg^&Ba>YWZa%tN3~Qg@O<7Pm3<@N6QE9`_eO!d~tU(li}%wBd2^*
zmS+$hxSqi{A;QWQzbj!EWul%II*}_dos&MR&;Q;y*7M8IY|TuiOrbZT1K$t5hF2!{
zh;p<o?YqdzF?Dp%9MSn-<H}row^(whlyBs(!J~MO9bAYGy#M&*x6{VObM@pFqt8D~
zIHkF$x%xl9px3$o>qEF6SBpFu-*RG!hAcH_&6f)0YD5Rl$ErX#TX4JAl!w%H!@I3I
z+$o3-T+i=Yw-l~h^K}Bp7Soxccs?#>P22VEr4!|%Q*ntPrgO>hHT}HAu`=LvYvAR~
zcPZ{tqLQ%F6~9NR3s1Q=r(inE!*5h~{1To3jxDCMdDD<$KxNEXWAS1Ayt40Af|yR8
zz2EqoRheqwbnnB<hf%u8lf9(;DsWOT9W}{a#If$dBH-9!I%Cy^10T8{p8<{_rb8;Z
zrl|3N%L_Q&>UjBFF<*&RiuKP2P70<I@aw00#qZ`Dz_G=2CJ!w)Xf7{q2aX`7b0no~
z(;v0@*TCsk!^>x`|6b%B&IS+Qq+mKL*~?o#I^CiG#}?BW`)OUm9y78IID(kYTEWp&
zn;8{#;B>3v<?}tcHuR=%ha_-PFddC3g~9qC0!F~G#dJ38x7q&3G*$&Tf|!no5%Kbn
z@6t}-bgSUyGkT)ycES~20pO%yI#Eh>pN|?0i~z?L)2X(s+f|_Th7CA^n2zXIc~PbA
z+yC8v_TuI9Nr|jB`6B5Ys3!%}(Jh_mEELTz0FEuDQ$yGHBo<pJ07nqhxpJ@atiE#O
zC*XAN!OMqFY>Yi<>z6#>q+mK)+d_*jh$}?{#}?ChQEuve|LV(H;0R(md$YVI)vOHO
z0jGO6UOx5_9b^~gwy(fR!E}WAk1Gnc#drh97SqvalwA07CBhdtf|!nS_?@st$w~*{
zbSvZK<1#zUA96iH9ylqO&WN3{<5GBLGH`4$9m)IWch318z5pCSOh=)zSL<jji!pGz
zmGJW6VSKk%;6{D{x4nVSLh72+DVWZxVrjd3nARiU*kU?@C+DBnHYvK8=KgZ}#V~nI
z5YutaWlY_6q@E2p-HLemgl<lHda5K~pT_lqM{8=f_@rPuuZcq%>9NTNfMbj4l&A+g
zTq4*!s?BOU*v0W(R}j<DyVmh&FLMSXaJm)n@;S!zB_h>f%?Bd$t>V@iX~z^q2Yz3-
zFn8dfKv1uJQbN9ntfM-+6Q(or_X%^V`<6#Hhwt0nP^er_M0DWi<;S;qOFu_;9AL@K
z&MxKtO{dGF<pV#zOY4$%%=W#!v$ADEt@BvMPa2{F*JIcoy0mUMXYW2m<}1$*oe8F3
zI)^kRS7;u*f}md{L<jCy?R<9OmW^5hpkG{=PTa?`vAb#CzJh*r%c12A=VRTrmo;E-
ziW|r|1=A_qI$U)$!@?5eY>Vmep7xbXu|CcRau!5%;G9*HKFc;<=p6+)56YtD13N{e
z`hd!ivZo+tDxw4D%zHzyj`NOSFvyvV>G)n;jT$b|x&?A3Vmbo9t!i!+Kb{3S(|6(J
zBP_r-bz5@I5ae8e=^V1i-{M^E90_s`M0DVsS=K9C6|H$d1v#r=I`(7Y!+UqN$$*>}
zWzh10>zPgcHvG%#ZVSk{8qtC0;U9O!yRK5Ml_2L}Oy|?9>5f}w@3leBBt!=u*MS2o
zA`c6FTS3kQOh>JOn@$iF^#D23cH-syF8*Xf=)s6vAZH4q1LyoDvpD<%jr9h|*&Ne(
zaWOpf((?2Xkh3771Lr(ebmRZrHmL8wdD<<FmJfWMo^$!GfBBnA1L#*Zq661+zo^*e
zL-qG@(62yDXL*I;(`^;Y3D7SUL<jB{+m1jYWq1BO=obT~lOHtjE}rd$0O%J@3N2?i
zpDKy=_i~wOCZJywL<jEIY3|;WR;>p<fqsz@9k`zNeT}iMf1NZyzlfL)$9w&wGP<@Y
zpkH(%T0U^Udf(}3M};1E2l`ck>7@G14_pu}Zvy=aM0DVMTK<}D);YDL3vyP$bbend
zGSa$vm3d0$DyjBN>eWR_ynJ3A^nS&-HsK2BS3RNwk4ryE(|$4Pbra}UFrowZOZeKC
z{;}&`)1Y4@OsD1ka8J^skWkPsE<^_&m+b<LJeuQO0Q%J`ftEAu*qJ`?>^!!v4dfh;
z>1^fvaqp{590SPN9MOSu{-h^<H>j+t3gj$^>9D%2eN1Zh5m{^Y{IL5o`Gmn8X!*eP
zuy11AR%l^m0{TTobl{vtM;~&|sL%fb`ym<8f%n6VzI<wgxvcw{Dvr6b9CjHJq63f1
zbS2=Fj^XIPdkYt$1CL9~JIC)xy3bEAe_FSr<qSLgUvFD1{Azk#;QW-qv+R*~JfZ`S
zYiGbL!-G5hW?&xLVmcDi!)Km6_!tD{p%|u9dtK)JsWYcPgLz07N6QBum%Zc>o6{P+
zo54J+Ky=`o%PS>go9{0#f_=jq(_zgVAJwT)F#}%@Adl$4<Knt7V=kL~Lln%P#cgQ$
zz~d4fpz(6D_3s1ory9|L>-n6YonxJ-`j@($@hLsj?0zt!1J^T<oj`x8Ew@8{MOnIG
zRD7=%rnBv2nXRVeas`;r42TXqE<2SWJz?3|*I+)=wxZ<>JF~UQOI;DF*T6iCM|9wP
zE}l)~Z?sL20Q;diq66=Td@Jupx%KVNf%z<t=)m<D?>8GN4~p9k=HZMOT0XE75UOzV
zRrYu-=VhLWy%|p1D=?iH$;Mw%AL^1o-@OqXxL>A>Rtu{0Y>S}pDwvMWIVJ_aO}V$g
zKE{CQ)T*{-*?+s)0_G1*6fbAv%rvR#sBf9z9HbyRa6ZAJpU0EF6dHs1V~*&+eHW9w
zJEWCwpvuMTVG`f&@{$YF@#t~bUjM1$dcpBL+s?H{T&-L1@?kX~TYh=crUvfe@rVwb
z&-=8GbnXxqL$EGv5gj<6ojoO|?4Rx_G2vermN-vP6-0F4ud8&|P8uEhsAB>4dHQCw
zeBf~%@|4zAz0&#;?DG|f4m_^l0gbtcNrpdQpZCUeIJr`Thy$fsgI-4UN)|hR$>TcP
zPQ|@(FM131jTsTVd>n4(vIMEy`~v$%HKwzX#<XXRnu{`6@4<);oO7#QyP@U-`DU<A
zwJ@C{mvnUA$Q`r?^O*tDxl)?>a_^aY@?aj;Z^Fy@g-bSTV^zv#&@T$6bGhhxbIxjE
zGU%5%rc+wZ$LF8qJO=tDi0HumvRlYLN}LwD3;NY9jFu1V+(|ENeUcNR1p1YN=?tHH
zArrDzu^r@Wi|D}nMtbe(@8c6?u^?wLOebQd^^b!-eJ9A7E`*oQ_=6+yYxe%V4RWSp
zIwdDVQ#m5D{_XQ*Oo#Q})2#{JCnUkTAR;<&&Ijr87G`>N2SLAP1kv(=onIlhD^g59
zyMlgIV>(vy<t{o(JGX%QPcWua+>o`yHfHP+=sO9~f!D?Pqpyq1b6<>t`ws!pf%8$9
z&zX4X|H%r>pH>01oZ))9ni{X!N|LGI{u7VssP*VE>|66?Z{vqud-9(2MVn(f4>}mO
z@f+%Y2KxpVrc>Z1chmB-;4?6vTlvxQfpe~ozv$n~<Q)a(a|)*8Ew)P{`P#G~n9oj_
zj=~;^qpek2o`HEtM0DW3Z>V*@tEOB1?>!Qo4=o?qiFdZ0$kXl00{x<5I-)YRk4i>b
zOF+NKhz{JZ-<#VG&BXJJfPTqiI@F&l^;4AX{GeZpylDBr^?bCn6OTyXGzR^uM|9wv
z-yCF_45}F|0_!~()2Xh%r+P1~ksI_&3)AuQQZ95~7pw>R#enF*`IIK9eIVwD-3m*H
zw_IPpE|<oGmvimy!iQDUe>l3|f0Vy2#4;6+>DU+@D>oD*D3Vtv_x<n+IA@FL*peBz
zHm@~|2K9(xI(-a9GLavBBSAg%jd=N-te8++YsmQs)Kh`!u$(xhlz4ZWET|_C(^1~%
z|BR?2>i+NNXdpW9y726IzLN3w?>68tU^@Gn6h0Ox(inkL&yAKdTo3b;Cx+Y|SE_&$
zjOnmxj(<^YQeO)kElkI;Hjsy#WuXH&44BR-#lIDPq_8gF)N|qGquemIMfc<yGH`-1
zo$5WQSKdnT%mPOX(>eQ<qxIC!gcjg1U^*p5ZjU`SO3eYMegj@U+Wh6>ZSv|&zzN25
zycVm?v_rme0!Ite`LcFn#OL2%jDW*{>FoPaz{AS?L=QOi>+$lrHzVNtdSSl?aDp+N
zLT2CdZR-3A`AqJAr^3AdYGFEzd2XJk)MJ|5RRdPIc1k!gU^-pOx6j>|R?h-XJttm1
zWiIWxPi}3fc%XG!Y|ll1qhL(uoBS^wd(xEv;Amkwj66-hR1B)6!S{PIU^)>E;^$u0
zGwcISJqKPs+>5RK1|tsn;QKv;F`Y-79~`lJ_GuD0T9}SQ=H|*|0yD$8x8dx<bL%r0
zFdY+)`GcRX{h$J;o*gfrcdm<GthM&;ack8}_viZ@2}X3__q{(3zL$<$9=s2J?vgp8
z1K$s8%0uS`rW|5{BZ%q9=?Ye~{*f{U&LA6FK5#t&jcOX{vMe0Hp<+6Av6-g^|9rd-
z9B)kL$uUFb=l0G6z)`_;L^jrt#t%{2fy035{74$}D^)$_4IJ7!yqrteor{8V7yW?~
zkLi5<z)ugW=wJhmEv7>x_lnw2(Ov*Y4AW_fAJ^4>l)fK0bOK&J6U*TtBIIXkz^TA=
zG*a1DKHe~X37kMoM|G>{j$uKM^}x}>bY95wW>Dhqr2&V4>0||u`Z+v(B@UccR=k{>
zKGSv<Wq%(AP70=THZt*a{_%kf@O@iOhz|UGA$miHPBxEm2aXt~6U4shWaQw1f8SR-
zxE3uRxE`wqX3?JeuIYn%vN4^IH2eKc8(t{_#|hI>a_Mqd6~4>_95GDi>P4F!x8^%d
zfHTN~mrv2cqK^doo-e@3#&k|?&a&HdxXA`MPM8jXWJ;b}^XuQgQz3@w@NwVxEq2^G
z9n>?(jF-<l|A_#aW?K$$vN4^Fa_*<4Eq~tyjuWQyeC%M{=k3|sfFp+Kcvr1!D-`UW
z1I{25UOs-^kGXny&zJ!x8`GKE!r(PR50U|n6Q;vI>aO!l%jVxcCWh(EPVtv5I7!%o
zdIlNs@*y=8o@Wk!`0x8zvoW0!y|m^tp`W<H_l-JXI*NUHsoPbO8!jH9{9e%C^;8Vg
zxiE50PrLm>&yc6td;Q4H=D{_1`DlK2R5^3aO$0dEm`-C%bJ9lZ(US~wS(>gL7g(Jz
z9U*Q%`HkYb=fU^GieWnY1H22Q&uu&eoIwV>d}4zicB^&y9s%DEn~mvwrjhyIhwQHa
zjuWO6_2$gJQ(gPlNq>9b8P=6QD~9RZK0SG@BFFd~a0XXb{wJXS^$%D<e*mBFrn@?-
zcYD<R+IZLJ7=JfmXEvrIT6$<XPq&v1I8K<3(e4DJt#Yk>#VQX5wI|+ai(xvIgt9@-
zEY@AX8C=23r(br{qu+M^D?*=Qr*~y}yvxRPYC2YqIX30ff#Zbf6uYPX_2V%%^kuQ>
zsgU;Z6+?93=UkrP6Uq<#RVFE{YugijIBwAYqU8fS<n&ebk^_%efm4C$)E;LlFuBX<
z2An`lhii=K(pZ<87jU#NokJE6@22Z*Nd*o8)7f1!5qnwP>O62-m+^Aexb(4deah`v
z;G|$Wz9T0Ve#r_I0mli`x!T)Ow3)F|9XLcxXK2~&(DN=2dEm?};pKB~U2uBx7OCIB
zsm646Ow^vaXIN+ioM23c?duDX?j&w8;E*t#X@xr?_b+5{1BVOKd9`^TeND}w1mJZ4
z!OJ<N^@U<$1CKp$vN4^Dn`$zj>b~Ox4jI!)YCrJA`on@XaO5$aEujy0g~>EC0B7+x
zUOu5wCEw{g_sjyP9@Dv>{II#Pb&n`;D45P*+4o)-E7yGBm}5G>vgGzEriA^Q&w`ka
z3U%4LNmyh8)HAq<m$U0mA?lduc^Yu2n9en(D{QS=g6n|ejp>X%`57a<Zkh@l6-?(v
z`U$afn*IdfFkm_{yN4{kcg7qzD>Y;`<2lPrTR_Vhe$T%~O7wI(LGw9qQZSuABUTbN
z^x)ILA!9l}>chL3TdutXjtZtTbXDaG*Qy5%I0Q^5IYIqkoweL;;B?R9<s9%PeTTXw
zy$m>1Oy?H&;}37VQu}}ti0LHiE_O4AT5AA@gz0!K<lom{`-l%Xf|!oA!>`H`)&K%<
z=)drCF0Y+f>d{$=15P!j!@pTxFLS$R3~(rz4&R-#>0@W!>;sN1rc;_!LHQAN>@9GJ
zxX$v_>BC%={lHoLiI;QzXJx6S#HVL~L&J1@mqoYToN;~+oD@ulOHlQYeIC0laLAa>
z;nJ>gt9IQs;HY3aejmjS4=3DE01g4uIrcfuB39J#-#qM|!|Rv9rMG-44?n4ZdZ?IA
z33s#+i^TeSzzM{3oMd;O9P#QM0}ct(Imz3XNL+Yc2pmC7hh6HtPSRyh8{p7q@p4`&
znm-_7yAWoX(L88J6=teNbl~T1C93&kv=>o9Vkupb>!G4#Fs4&nv@wVG=-#G)(+rPl
zA|BO{FrC&x(+J~UcOh2C8IiMFSvPVaI`I3bfghUIDulup5^f$w!I?*9TYsSC3_Hb~
zO36pBsXRM<M?(IvroL`GrW5(#=Ib$w6M58Q3zm*)*G`#ZI;EFCpR2kqH(ASbG33te
zOMYC44*Y$!vu2fTT^yW0Kk&!AbxW6woS8w(2X>le<JWU9Y29ynvOh!DaOzttq66O#
z_eE(FEj?U+%2+;A*^_twayFs^&*x5-Sy$a$9i74lkJ$%u`18n!4&3+P97byfMcD-N
zfoaJDZ#EhdF`d8Wwd*xk=9~(zaaA?CIb5QDN6Q)hxdRD%v{LL2+Rj&bdTTv$j2CJ}
zbl`s7-lP9!<mbrTU`%GoS`kCB3PcCa$HPyv^TDA-`socS19GvVTfH$I?ekOLOp~M!
zQCH8ZifQW~mPd5ppTqKcX8Yf{>|%=p*)KD7o-jNhAUg2;ne!WDIrljIUjC`gX|ie$
z&bCgY^$VWQ-L?hAU3)6JK4s-g&qv03Wn(&wulI%tbk^>(zCoR9zxqMT8_|KsRcNMO
zuP7jx*&kx5rnAjsNCnY>=Z_P44Z*zJtV3bdar^wCxM4v=2d?K@od!k!Lay&4N?XI#
zl;3%SQ)oHE^RS@DI{E%W{HNU|*}5?T5q;U1&QyteXX+=0(Y5AM$G*?G9d^QWl=z;H
zY;@@=V=b_EbO@hw5JPm}^)7iTf_Wjr^BFh?35X7y&mI<8{nvkXl!9}RHi?(>w|eg$
zT}LHDa1K&19m6pj-nL`pGvFK~VLI05lB@(Tj0S;okbvoIzeFys)K0%utZ_B3P%&_Y
zHi4H<%Euhb#PTiK<HO&lUkVa7QxF|^U1XjKKAgVafA#*C^c}{@m4D1Jo&HC^V(xT`
zJ8V5nG5-@Vu~rb#fq%Z<>lk^iOu1Hl^Osvr#?W^eiXl4u(B}&!R5yM)TbXc;o?)9H
zTX5qQYCiBj-_O$eUVf%$_sZ&%zSP9<87IVg*r9s%1rBn@TW%$m>C(SH<QALtMs(nx
z_s8~aq}8mVe2krIPo3qf{T!(Ez<np^TxKIB3vK7D{1dVH#Q+Zxu^xDT-d1u-oz;*t
zwdwBph9{9{oC$~yTu&fd%CXbDKi9Q;mozAe4c=`XM_U)%P|i=cn)(S_yK_ct%={D`
zBH7M`SPy)j255C91bnRj@IEm8=*z#Gr3Mk}fyd>bd5rvK6W>*P*Nu~+f$7_*h|UIR
zToVEv2LiL#JE*EFN|~K;we3c9;Qd+SxzW2mt8vkCZ_k%MpV(KWAUbg0gLiPw-JWN-
z<M?WW&FM(nwm?J&p3mXWO&eX*_8gRvm3_$U6k$n5bl`P5+GTU{_G()H)v$Qg7k2q(
zT8IvO4(e3Lp3^Hzm>Ou)4Vk?%v73nLcyMf0OiK~}o^CodcgQR`kqgm*=iv=Q`hE7A
zMVG7r|7bfq%a*}!XzOA<G=EMG))sx+Xdv4&AENu$v`vwKSPz`DNr#BF-TKkzTjp-0
z<@*e<qt*k@!}OU{g=Cql@wBv77DA@!xopI7!RsshwDYK^>Z#tzb#`9f{N3ebOouzU
z=21@>ucG%b>!x;x@5=Is4m_@7+65aMH9uVIp~-lU?RP#kLr3cu?CkDarMKPj|D<Wo
zZ<3_urdEOI!2LQSa_)g0Lq)Gif0e1im#@|oL<jzPe=RMHb|<@vcx;92cPj{sz70ln
z;Pvj5GFa?ZdD=(L^Wh%Jn4TeTL<b(%<NL-9#+Lc%-}h%2DhxBeBq2KR`f}k=+f|b7
zPB8kC{<}f7U0o2-f#+e{tv(}{w6)*PCslqq!ddG*_!X`1@Xw>4H&bk}+FldrB`Fjg
zA$ZJY5z&F?Pn1Sx^8rB*zY4n|(F<1(HB@6d{gZ1;n@tnXNY!n<W+BS-ED+Iw`_*;m
z^&QG^!~UQT+YNimM)}MU9rzx_A@422@~LIsd$3igL@~U~3DJT3ZYw9Yl~^dpFvT9X
zF25^xL>|*|i<R*XIqF$HG*M`mk*b%<fat*UN9PUarh@Oz>L)1GLV5w73bZk_`2(-7
zS8l@B)xY}gIkVv7!>OE4tVVR;bMRWusmor+)-EQhlt%S;Z&=Pobl`I*vEY!iQ-#OP
z!6B0j_H{3FQO6|(onJ~9zncejrlxRsI$c^e?=_(z<_zDXmemW^CkF==PjQ@R80Sk`
zi@Ltx`_CF#_qy5$`%vF{GrCUvHT!PFde%YX>R<o(Q+o5zPhr0juW185UsMNP@3j??
zhto_wb%B$DSP$&*r8%3ZZ1D95jxDC+p+SCkyY9C<a0D@(_Q<IZ<r|Nj22MBPJcP&P
zEV(PAtNqc2(4Ui^58RRtPr-C}oinXfv`Qsh-yU>WSZ*G(#dMZkqZ_-XGl=4zYESqE
zxnBq(I`DpYYPhhdf$StaB$4>x=ba@pBBBHDKi78zzxW}S=~%q(Qk|xN#@CrqwEYLp
z+57x4`{_1+ZRVoyuL=adeW*Zm;Chl25}2GvpUt?XG3r@OTonz(bnJyL`2Fgx9oEV#
zzJ2vTv8NWI1D_X{ADV7mbLSJ+{q!Xh+Ij0xE<^{;$75Hi%h}x)xeJlLjxi-QFIz{@
za)$G<;>)pc+cc=d5o{PqeJGWfg6P2YWV-1uZhg(`uMy7Gk>JH5Zj0!^^?Yu7^-0Xm
z_k+2>9uCep^%XHh2R^^%+{5H_ro%X{Y~!lgM`Cm4LUiD9z3b%oE5}{-_U)+FO88IL
zrq(ZLIm725)0NGqvZ^H|G`DrcUtV<zs77?)dM09y$|f<~^elD0Qt6nzIvj}Tz~_$8
zl_u3Hp=dMqzZVYEMrDF*5goXm=V?b3{*LwR_*wj?uB}68t01P+QSNeD`s<Z0A=R!8
zPkkE?bPuED4A=8_|KBC`#jOQT%_mRiY6Kie!E{~}H662AQFq|#R_MJ+kWR71bW(_?
z|F%xD&e^qbGG1PH%vTW6f!D>RmiE+yG1G)6<!&PL1`%<CLwNZ#+!Qhq>D1rL%64ME
zfc)T&Y(xjHhm~!@@7NLUL6xU$_m4d<=p`dMaKF+T?ll^jHv0%}5YY<kd3c0~=|m4l
zwd^f>$|q3e*QMWI+(jS6%cpC>WtQ2nY9h4d+=l0yYU-(&j&b4@r5)dT3f?|XWFFn%
z8A(QT;OAu>@@0+KEz-Ku;p+=d>j!;uLUiDqm6^0nhDY|dUQDUxy6V5wB8KR|eGl5x
zdCod2WpuNssqZCC#t!-bUe3<uGpdAV11HxVp$&#@><gtLI`DbAm62~jj$z<{(3X2Y
z-rBu!3Pg0^d}8kJKE;2P;2Sw5o^mr=XP*k91J@H$C3*BG;cQ7J-E3oHuLd&#(Se_H
zBTiO*T_jv`ewIet&{dTdJ@^?f=Ob=Wi`1G^p~7{6aihsz7TK82=$%#7v+swky3`F4
za-Q+rcfxdB8#ae<IQ){_nea)V+4SI7F-#}Oq%ZlB%;>l-gOua`s`c@M{doDz>A5A9
zs7u}}-ErhuMk4V?HlhQsi<b(^SH*6B(Hz$g=4L97E+Jz&!c8Irb_{MGXf9_B3g4G|
z$s;=OeD;xf&_`bpwq)<?j*4{hO`Pe&%jbLuLz=#}TZ=xsmhRz!h0Y2@2VNI$Lk3k{
z7vlVB`XV$tiCM;AOlM-%Sm4swAMfg8Z9J7_Vf^NZ4xA6o{w?=@k>=er!A71;=Y#cJ
zm`=d@-*qLYO7F(M>wd%6LRiz<i<UDye};cO<khvgk_?;_Oow-IcT|{E$vAMFFdd<z
z<X-#31D}CI#B@9}1YTzLOY#6`<`Z5%dc6|ffB(#P0H+$$F}|=jFDY-GByfT;oqcA5
z32|2vjsk~-=^ThH=xgcRI|UprOs6lA$s)XB{c+%Q_u%C$HWQI|BJju~;ACSu8CxxS
z_mG-LfJ4S~IEvRim(mX@2aY_Z)AjY8zw=dwH^5o!#>>as=Z?-UPrVf2)MGm5OZ{T{
zw?1(O4h7Ru3+Ihi(m$C69CJ)(ch{h^OZ?wv;0R(mJe^aCxs9`Pz!~hq%UP$F=juhG
zgFbMmn9ih~)Zoi{m4D;%#&oo*v&%MXdYXZHR4^S6u`SM-t{R%aVZd~DUGeW_w@uap
z4(%ge&Jli$32S6~j{iP4_p$fs_5OH72R=_jqw_!ejT@~6jyb0Dj8kWWYrmQ|aJVp?
z5M%y5misiuukYw=^uPZkueB2`A9!43uZ-mUdlA=uk381lk+WxuM|9xx{m~tI5Se@N
zFK}!zov1w#la|?S6~=U<e(h<cM`DN$d>@-+jkgSF;nbb=;&-c+td5=efR~S|THPF>
zIE)K86`0P<$HQ!T$?K)Y5C0;KZ5mnd#&qOEp6-=edg%-tc}%D9ZO~K3o(6t@9`3is
zYqeWuI`Hy2eokGO7B-Lz`c;AG!1Jg3PE+Yf!O}<I1Y$ZIfstV=7dG00e6$c9cwOuv
z7O@s6e%A&L1Ew>ed#b*Q60_~p6aL)4>XXX#?RYsC_Lurq8(iIQHz}Y~U;TgnT}Mnu
z-)QwrIB`dIP^2+Wz~zR0T8NG?^!YfMlI~{<tUEJ?hqe!E?r<`tAv$p1O?PNC%L%o6
zxFxlFDA*+Ijz@GhLiId69u?Ndy7!p0-kA>xl<~LShz`7O=&zmH{m1<JQP3|cqO%FA
zM?_I3MpD0S@V82Y>tpMu`6`I>#}#r)$J|*qJ^%PIl_My*@k&XI7~**$4>{>u{w68g
z|Jp`A6B_Mwh;q{w@mz+#?sWaH1)B!ai+93lbxJNuYp0zM9r(T9Nj;BM;h9_Y_qNuB
zy1TvQLahh>yx!YQdvYQ@k6ILVIoxm;IS@}qtOx#lK^B!QImFRK+UM3Gqsl$wVkAuG
z)2rdRsmyh17vvvXI`17FB_cZT`>|yAiTTY>q*peo%r&vCnf6A#N5T8pg~@=Jv*wp$
zSMH_0<SckQT8}t?;IB{EB-Wst6)<I*&r<HKqiMf^j_APSGOUy4&wuyzb4A8uj`i~w
z<WTE@oyOUHmD@Q9ibF$^p5+tIbW#xOfj^HX;GA_z=Hsn({hbH47jiTvP!Jt>UF>K%
z@W9jQg;W2Vy;;I0Kc1o9GvUvp-JEkiNi|SEnL0F5z`QqTb0A_pup_j`YG?Iy^&#-}
zeolxEJb!X2f3Ku8+|Zj^m8dkYWiCS9e_&@Va}eYC^v1amq5KV3kN?;)h<LAqo#j5i
zd7%$aD&L!19!e&>l+VU=azq~uwS9^GtU_B+Cc5t=J7GE<-;F+0@A#I|zLmJFPcC;w
zy|2RKN-w+<bkbBQ=+vUEvh<%~$3e_{oo2ncZ8x>((TS2Vt{qE)Ke92MGc`t{Ia&uC
zmfV8+%Wk^pIAJ<(DEU?8DZ3xk?=F_>R_n_V!*u)_&W~rkJ^w9>@tP7<f23g$@jQj^
z8$$w&S2%ad$!4ePY>W0YE}|kjaKF|ldsYpW=2t%7#VwIJu~~zR=)m=O=@d4l+ALa!
z6#BAmkC3pEM|9wN%4Iq}+^9>lxNxEKdk$|Q?+oI-1$H*rkzbSN&X2t&p89q2FIz|j
zrt>h?HTmhMxWfJKgeUo&j2gTV9r!**D&6nSw!outuU);mQb9Hg^}Y({JR0osvfq7d
z9dHPU^}x>F`>pq0axIp`l@*Or7pLB~w&C69+4`n=TY|DQffJAEG@oSL;HPu=wqtwt
zy(P-{Uvo_7xq_8gwxW^bVoi?t1)-W-T$oPm_Rr<#?i@%DW9Tsr->rDQwG}TPYLss1
z`2b_4Zbv<-ApYLIcuc49O2eKjl|k#DStT^-&d(2<V>)Jg3Mb1ct~E*$FGLiRqJDEB
zI`Dk%-}K$$8V9rMXZf4H$_hPC2j8RR13TZ2gh!0ns@qgXxI}6tJW;B^bPk0Fgzr5P
z)xL0kc;0Mtwp=ix1MeHdHp_K$aTx&?(!{MkucY|3FrBN+_k7N|%x+CLb1?kcn>)yW
z>9E<lNRG!wI5d6|Dkm@x?W%u=mNPsq9xk21;mGJn)wvzC>{_ws!I+MytrYv4_jSoC
zsnK^9zjv@{VLHs81{@AgEHj*0a?!e%tG&X2>8yE|&PnAeC^S7Rmtbw{u2BCLEg$%~
zN%=i{RS@ND=QiDLW`DERqHIJ5&RK11Y3OL`#TcFF8+y!rn&wWJ&eV&V?-Lz|winU3
z-H)a*G>Bn3Nw2Q4)h=!L`B+=3w>09$jlnl)`M~S6eD|fkVK1wqk!gb`YjY01sX%n#
z=dbwdik(Yj(iiCiX*Wbpq*-<&I&i<V%GMpDC)v;Kt<$uBC}qo5jp)G7U#yKywtoh;
zuig;RylUCxbs!$mfxnOAp~sEG4GO<+(TDx&|J<s(OGR{ep!XY7a|R(9mkCzj99%?n
z;C@w4wW`LHkK706APv!h?+J}Z8_N3JS?$ucO-GLj2}`5q1Fs8@`wtye&zxBZnHZ6A
zI^dsfj#v-u1b8h=X1G~NfUghd!gNC2v{O^|JyQTqYYW=Cfa{5t+)+q==dF0ZIdPMt
zrD}ORrgPzCb^jn^Z#!_zF`Y&WH*M08rP|s4YvRmzHw<$jI&j|^jej0djr4H>PWNlH
zd|=0^nbW3Cp`8evY)r>bFv&wBi1Z6MWK8EEQ(LE)oew{7<T0J%I^`}lp5nj2S$u_;
z&lA%tKR&&A773hsOvjo}z|rWi=eyTj#*JJT0=OxN4m_V*@~^eWA2_yL5Ps3O#miNc
zgy{riJf3|UTGyw*^W#iAh2M&R>A0L(mKdHA?NB%%_Srm?{R@qTmNWdG_QTGVH`9TE
zRvAQz>@6&O0riLuysxf#s>^!7l>HV*;5FTpPO(4nhz^|dg>7-~X6}wE1IHZG+2@|9
zUo23i1{^L-=k{!^)9<VUJAu>MjFvMzuBX?xx$^|f?gdUfrjw?t*qe3!sjcWlhTz6i
z-7e;c4t%~p8kSS@{j#~CWol}wbRa)~i0HuYS2;z4ZgcE<F>m0b`B^1=uazL81AqS)
z+y1|#!0nFVQ;xF4-#HVjs1BU-c2h<%=OO8uZMk)<kC*z7bic&w*SnTA+p>E5GatIO
zF#CBj9!NoS;GBK*<*w%~53q{=dLMJ#LnhrD(SgUsab==NaFrfy^S9x*=xFaRc}%CU
zYNUdk+uHz~nHPBZTvtr$RxcD*15O2|Bd#@mG+?pqef>nex7GR^&%7}m`%S045;n$Y
z07o9vQ8kiQ+G>(MnRI!n_WXHi+nMKR`D}&mtJ@@B<)0wE{KI9pp{+%GL<~0{F8<Z!
zwXcL{z&gdvNB&NS{FCmr3t%4N=0o(h=f6d)n-aYq65_JIqzg44cwP98zN}KTSQuIB
z!5Q47A<;rZ%o+YXNJm$}pM@_&RkZ%bFqTVqf-4Xm__?V|nj}_t?m?s?mCG)`Jdr&f
z(Shq3%{&yfY7)+JEY&l3dBmqC5Yd6}hd<&R8IRWQ-2xmfOov}*Uu~UZg&1%Mn2utS
z5n<&0mX_mv2Q!VgP#(25p{)z}yx7h?Le_m>kziH*TaEDgt7ko;1K&5UKIYuYG3?6!
zDnC0m)NvDYJfZ{Vyy=xJ-;U#*&6%4Y>wK60VrGlz!1cshsJ*arHnroWG=1Z93p+$a
zbl~}O-KXn5Nwt%<bNE{fkEBa87or1?Ywwm7Rc|KRU(m1aMznsx=gx7TfL#8vTU?-D
zDVWaw<jjD|^;_n4jGZi;xqI@QEusUDOZG~R-G%pM*(=#H&0Z_5H^eZV`L79mteh-*
z;5nDxfS1o+2k~E*mLg_=L&bECFhw?3@+)`)hm7fDWSzR{ar|65aEO?WEWuu7A#c$S
zIP`kFeAe9--Y`D%@S#ns`JF8+EVEQhC%anY<L~{#(ctqAWJCv^Kl}YoU$C^~f4Hkt
z@`cHsBRcYk4i|L3_sd-*)YZj#2!1S#<FJbzMXd+k508ibrhX2YzOSw`lYHb-)<Iju
zdf;`sLo4T-P@>tx(2kbO?W60Z1u-2udvAG^aC2S0$_tN{6R8`!>(KfRf8CDcdAV;f
z=f>~dzj&PCM#_W-9npcGPYtS9&sbg_aOB<h&hdk2;p;&}2hNAr<Ljq~S1!H#F=TdW
zGOj@@8_|K^L&mn%o-emHn>&);(9k4QNti)&;CXo5ekCX4cE|yC8$xE!<Kt%4hz@*j
z5mCPsn->r|ko&p#O@*7*pA<v~?w6gfiiz6`Cg#D@vEj!%<5j7M4*c(mENq=iCnkRu
z1E2pwoj-6sUimsQrx<KLyzdr0EqkZt7;3*@Co4QOB8KUHk?QJ}q?p@*U&)B$f}L{-
zr94~*YdT&u+?s784GGC3I`DJu$=E*)oX<ol8;OP{E^EHGpgM3pMA7W1Y2kHWAGW%w
zsX2bKTzrPMPT}|S6~$GX<I|ngeT+VDS6SD7mJ4xQa6P%gXSS17=%yFxms2i@^nC3`
ztOs7F+zvm--q-ETDc#-aWaRcXBL&l`JrVaoLp4(W$7P!oEk~vjTSN!`I?u^VuZ#+}
zT^wQmv%w)n`z<3K(SgU+yN=&K(pX%kh+SA$k1=CA71P;QV{DzfR<TJYDefYpc%}du
z(|OO6?dE;ELoPl4d8NaTrUfFVGyX_MNuYVDkh1B;9^t9z>-48+^AOJG$CPmPC5y9q
z<9%^ubrSO2R7}U-a!ApB;}sbK3n@{$v`>hP>7;AOGnk0Fc>#xr>68r?%F0VA+hh*s
z_Q+71Wa+hd`D}RHxV(Ae>Q3NLah-Ra%02T(lYv9VbZ%*<XfCZNnF5E1>1^MyC{BrH
zW&;lW30^+Jk`+S<$|;r})KuDDVrnE6(=jBPQh6OseSky8bP5~x7=KJ;&IAq-)9HTF
zbZ^bAmtDZ2*Wl$dye78bjlJv~aHyD0)NSTh;}#d0fkVc09O6ryZrE*i0S*z<Iqsz7
zBvYah1RVNfynICRw4Ps8a?Sw`71QbenmU^EsecP_$e2#hrVX3q2)T*CA!0hyMR_0Q
zmqo*YL$Aimr~Olc-ghdK25_jD&S!e<$n>+s6Tl&3Izhzv332;1Pk}?kbWR>U`&4aw
z(i1rJD!hCiZ?Ek6*fnDT94e;MCN8AL9g}$wIAlym;q&(CFMrJXfJ4M|a>tCv?Lu#*
z0*C$xFQ3WrA50zxGnRov#dMbPns<i$T(JQT8Pjn;m&8S&IDP>R5z|RH?f>-2vxjcL
zp+CgSXa5u4H8}?vZd(LcKWUB44yR%|%&~9srFZii0*8$0G_Ntd;NE&Y5I96k$5H*I
z_Y{}MHsH`J@$%WEWNLQtUcoisP%)iAEtSXhUT@ogL&kJ|PPwy=$Y~n`hluG!vbMbZ
zF`3y39Qp&ieDsp{uNR*AQwSU?rqk5ZANZ%Qf(#roro(J;Ug&E@n<j9Gn9k2Pq6Uxd
zYEA%$ejhKNUA?FJd6IjDfJ4P}Cii({kuNBV1BZ<11TPva)^<HD0}c_>3Carn8J)M&
z5jgaFc=^0|-p1+vwpI%`R7{8Qa@6??Vy~=$L&kJmf<K?t?i0QY93rN3{*riTcv8Uv
zaOf3y`3MKiJxq~l|2Ge*n9k>mT8Ew{y><chkTD&D`EKRRTBb9=A!0g1p(omp#^=8U
z4!s;NAFB}NH^T)&Y`~#nI;v-EL<j7PbAUs}bb5Z97vBysNCOTL)44i-U~SUq$q?Ys
z%kc84c*&KQS0APi94e-BxYC#9T*iqnz#(HgJ6+Be1wRTs4jdw;v%X$=@9xu@r-4H+
z#mh&jYn$$<T|hE$sF+Un?`M?~J<R_-zc8K5#~+3)pOc0`Jw!~Wa#CM+Mf=t{;LuC(
z^0{z9c2=vbKoU4qOlSA!mQBO0p<citV>$*5#@h_|FFytj5!2Znc$xF_@2^?Fp%>%j
zqn&Cx_Q5grFmR}tjvTpUgzNN87T}OEosjQ6?^@GudH{!r>CABR<OOhz{kw0_@8abn
zyX<@7x42U@sE3N_NLmQ?<;|KE0Edj}r1J7wlqx1@0EdX_ba&~Qf9c}>_q;<d!pmpV
z(HY;shTFQJ9xA5OAd)3S9o*Ik95SYJ<7dUtYoDK)z#(Ef#;d&-yYKj@0f$b-%O~ng
zjz`9)D^b9qVmh7Tnxbk04KctWV>;PEhdxTHr#u1<5z~=h-064Hvg6;mOfSUCXHj-X
z?+Qun-?>c1bo@{4rt^j8mxFPUF`aEEa#bn~U#J6zi0O!J^XwSVy7b@mRe+bzp+&j$
zH6<JFgL<f#PR%t3pBXXrN#Kw%9Vy;j^}D2RKLHLA)6ow1xp?#Ek$m9L@8IQgv!uBH
z8`puKz@cI~O>0+PCaO$*0}dI}c~5p@zd5W!1P&3?>9%hRi+*1=1sr-lUOsZSH4g7K
z-Bt`7DyAcStW710vb!5NWK2hkOWejb`n3{ph?tJ0hJf|8i~9f81w9Wh9|Imivm%B?
zCQuI*(}^~z-{kl9)*^7on9e<k22$#c7#-jcF&)W#_x0VizB_<J&&A6}=Q&4%-UL+u
zI8;oB<)+rn(-dwi;E*w$0S$-Yx6c-ufkVV}I5v<^gf27r1Baf2mrql|shA#)(kkFk
zF`Zr$kx~W9b_?K;F`bg+8D4gM{`J5iVmiuxJm<9k>eT^<o{g7}V%EXuCvIyi1BZ&~
z$VE21eD5H^4IDD2v)~r+;!N+6Y~T<vokE3;hqmV37zYmhHeNpCJm)@&GOx7(4i(dR
zbvasFU`zdf^TBkyER|&re~S|Z^$;-~OQV8r`g=}K;Lx-1@;PwG=Irvd<w)RAF`c>;
zFIwbL*L}btV>*Gp3!Z&WyWatai0KSYpLqST&ZH7J^h~^bzKT1aycZQKHK$T{RYB4{
zhl=RHUxyaQn%^_bQa=qGZ%l_R?I(xTw$v2hs9-wML!Xibj*m$KhXK>kl4hPu;|=Bn
z4lM&MXE+~2Tf<jZJJ(wPCmz!oKE~29ELI!_99v9hYHCu@?@)gaaKtbjk+&(Uja`cY
zz@ew(<x~9FTKIU=nJ>Vpz;sdz+Jw@qk2eA*5Yw?gp_21hL9PloTA0oW*EVz6InRKb
zx%%G<wzw`55FPmI^cqBccS}6$lm-qh4J~KbSv0()lwdp9tSrf)niFO1K*4n4Dp|J@
zC+5U~L&9`|ES$dHdB1f4I0Q^bftVvCJX>@JIJ8u}eA<_+j<$B3o&^pC)9IV29Pb?S
z-vk^IrsK7{_Tj6*tee0gU^**fnNEL<?EQd4OTo)0S}S3v&a{;}a448g_e8I!3GY-s
za7dWW!7sP|@~+Vm0}cVx5q*=FTsptT5ID4CynJMIXYIe8U{?YT1=A^!S|_1YyUPMN
zBupn?IPT-cFO&YjAz(U=PZ|9v`@RGLhn9qw&qD`&p|v|W27yDtbYxAoede@$;0_!T
zrXzlf|NFXGp{u|lU^)(a@_uKLjJ^Sfb_*{bHlY$qP|pW`;7~A~xjQGRmU}x`fkVP{
z_AEIky6hcd01g4u=_B0#@MM_y0XVdqc=@cVT5cs#M0|lm!E`uJ?i*D%-2W6fBuuCB
zt8j<1mgIl)!F1xAFaA(YluH2h&=T?T8EzI(GhSEq5jYe~rzUJ%?8kh^2H=n|og12W
z-~T==@enu!Oh;Vc@?|6T<9WcLCE(@b_T9)vg^`I2915nRTsZL2lBvr8I3!HxZC&m1
z_qH|voj;h)?n51t4#y9Rf_i8-@bVcc{<`J<hX-uHp<p_19G}-RDY)DP4hhrYiDx<T
z_36w1-hVKi-{cOKsBgcLKs~g0ynI-qbZ=ec7rO!+3Z`SqKM}5VIa3ulBupnP(<wMa
z=}9PX2$&8rDt<9ppZg7PXmNP?lzcyN|5S)Y2yiHvPR^do{ML+~|LP%OI(Kz~rDQ^l
z{;hWcrlYTt{`$&svt%$XS}a~ZlOY|lf1XbN0S*PzS+TVL$X24C0~`{j^M=QQ!Gw9=
zzkP#%=?v63Pt~3@F9r3`V({|u*2+Gs^w8lea449L)i?I@Plof2fkVP{4oOxCSEz6*
z0*8R<tkEtxZgcW76L4tP@$zxezHRW+>IyS(D45P)seO~rZa4kAZ;&vZdyjjMZxZ_R
zZ@m*Roxr|V#uF0C`e0nNXuN#<7%%4iO0_Nm4h7T6JZivjz(uA2I3!FbGCC*jy8B`j
za0r-A(VQWx?xnM3z@bIq<#YQ(wuk=o>;K*lF`Yj(zeLC_t_`3b5~f27@YCEaG`b%+
z1Wczh(PYECZRHN&&?52jNfr|D{dQ(&H*hGJjx>Eq@3G;2W#Eu79lpaVoQ|$P{`H-J
z>8xqKKlyh0)OS!1je?iY3!6tokA3G^fJ4D_{Brfi5_sJA0*8d@Xh~G99Q|tc@41_R
z>FBkzy-@LeKMLxhUBk<#cffYzz|h-Wz@cC|=S5Di<!YXn01gS$>0;mc;p6q_fA6CR
zn2yeic6pOP!D3JkEdno}jS5^-vH^4%;7~9f66pzt>$Be^;E*t#!M>kn7LUFDyZ>N1
zT4v5KNZMfmpdQ*)ynMoEPY4<8%`FEG1=EpJ3iTz<Z~3?0Ntn)^Ie+(Gm;3+w{t(mQ
z`f|+EVGGwfFfLj+UOpOSEE0T%*J^=7!F0B923dZH`283-Bur=5XaLD^-L22SAz(Vu
zk{JxdxiyWzp@re)!yhBRe%t9rOW;s2ogU#U_B=e6slXv&I&aU1w13&G`tKe^z;sfR
zxs_Rr`=&uXv{1Z!qMOHgL=%7R1`Y+&(Y9+*`Bn188aO0OCu<EkbZgD%zvmPJrjyeW
zpZ7ewC=1j>3&G1r^R;Apjhu!wa449L-b0)3Pe>pB?PDZNXWP8r_Qrc*|DJaUn9g>G
zdgFb)y8rfhS}<NdW~QAr>-9Y@{mTc_+1xduyY~-O1vn&3C*zHJn2NO9Vc-xjou}q|
zi*2nQ|GP)guHfZU>1p9ntZ2ju>Y-pdf&0p;z9xEk0EdL>_;J*JoN@L&0UQFR6Qee;
z{SG@J5ID3TynJp9K4(u?eO3n?3Z~POf3!x}$j}8iBus}C^FXoq+ecmC5HKB|HCt|3
zfBG&49NJ~Pd^Ybi&Uo~?@EC9?n9g%s&fg`!*#v<@!gMrfX^lj~s(<Gx0n>Tw`0VVP
z>`njP1JEwv<>Qlnv~O?y(}Q4K6ijExy0%(ecH6)AnIud{?e5~X<E|bDKs^LZhwXKf
z!)HInfA48&7xD5TlLI&nyhHbadMKEVn6xE-+7-9=z#(Be%4a?tV9*TW01g4uVb2!#
zA&ovb4IJ79ynJ{c6{+sH>uC-g3Z^qM@F>nsMx_QgBuvMhOfMD4JNs{)5-^>r<FD@>
z`77H6>Y<&-%V+Iy^l_)(?-GGS!F2XmWT;eor%`}I!gQi|kH%Y(IR8DT5HKCV<0_79
zJ1zd57qmdUe8ee{mrA857s0qFm`=%Uk)Rd2>kHtJFrA#14P>>GDgPg5_Z?5=|37}5
zGEQV=C!8`fviDX-gQT*@k&zW5JK3Bfdnb<UlATbYjE=}&na3U}WQ4@`{rltUbGu!?
zf3Dl>{onha`|b67T(4`Kk@N4qg93EoB!%2~bu+1<_29k1`UpzYXPixWsS7z+KnK0U
zyJN<e{O@^88_*$}SJQuY<IoRU4+_u;T`)}U&N=?S>yH;$pLmsf#*U_sPebd$0y;n2
z=X6qjYj8o1HlWkfM-d%&P*V*#C_tyM!|4}~_vpX-Dc%#TPZiq__wLKP|DHFnfX=k9
z-LA@I>>xCkHlVY^<u}7IM{);pP=HQ6!!3`|9Oi%Dhr~Ys>r=2~EoUKaw+^ib3+T+Q
zur#l8Z#{q<Z9u2*W~Gwq)8#_QK><29vGdiq2A2%T!Fz!9Nofn`wC0?Ng&ZuPb8quB
z(VuIB5s;$|=uAu7MGp*Q{<~kG03DZItG49hA^)Be@a|xJOd~GTM3q;mL33dN9g3yv
z7uvZ<4k1Sy(5V$UD{Ds<5DGacK&LUSDnDU;``_nr`1@deitF-z>>L~Y_dX;R&}sc%
z_9P<xjtexGHlSmZ@{lGBwd?^oC_sm)xQA}0o$wuU@NQszw0<09{`K7c4LMjqNAwYE
znG>1I5#(qCI)NK%mG^k<|9y`U1?Z%`+y0`RF?t4C58f55&q+%o<{Jwb2gtz!I#<KP
z*jY-uOd&@b&^i0xKV0X$_V|DIFF<EbL5J2=GLact58ef=kBp{v(9b^`|E`BvKqr6C
zN^ZN^y$M>6HlU-@xriBadHf4<P=HRgcY$u=Gn#+TnfQBPefBS?a_nTzbV2LE0y?#2
zn-|&NtN-u%1L)N7bYxK}H2nKq4+ZG7mui10IyvqR&4qUc>$5$fKpGT7`1gJt7SJ(r
zD{LRG{QJLue*x$`=c`|PVH2Yc&4mJVDsOSt#>+onf*iaPSRbkphRgmvyhf0N1$5jF
zWnPrmKL7Wepbh9~*}m85yTtbIdnqVD$1NpIS4fTOF*Fz65v-4Zkvl~PN>CGWuz*g&
zn1idfN$CI1FF;4irg?RT`q%$H9|UxWd^IdEQO3uix$q8PeSEz-A|8H!^bB&afQ}M>
zF1MJ^*8lbopmXkeX?WkN(f{860d!QKN5yT;sQi214{s0FhlrrzJu5k0^REw}!+Fx<
z0WrsmfA1S>13Gm^Dr(<ZM2<o0K><3>OTVyAT6C+BgTD*b=RV_WmTy5?(vX7%bcl()
z>&g^;bs$F@&}qENYTIWj!3#MkK&RQ4WkYC1h81$~c3^!n7V>I+0!>9^=|0O}sg}El
z1$5$q-)3A2@VE{++JKJG_OA$Ykvtv9K><47ZslQ@-m<Ph4&D~5&wg+3-5}NiR>;8u
zI$2b9frs}dT_8sr)badT@tQ}k9CA>A&e>B_2IgIghmeD}0qdjj{4jcgR;(3ruz=1|
z7S2>HApf7E4d?_4{Pz_HX^IJGJt#n@UAefsRY&+e<lwEr`V>s`y2wu|PD2hB&`D-w
z&TYOgNCY|BfDVPkK;H?Sv;Q0vpmU2ZD_Hu5v^caL{2j19>W^#Q#3zs#K@JwsxoRpn
z8A@}`3v#pp9rNbN?A+8>e<242=yZxx)jidpiiI4!6<D9+Qnz{pl4A8C2Mg%DHI-(T
zxnHLUIog1Zd{olq2=DtsLtm<!20hfSpa31ZqmPj(dv32G2af^lvtM+jbo0hG<X{0E
zyw$VPx$aB<)}syRJUT)%aShMUK<hyPI(xSqX+ln?{#y^;60A=IOX8_QCp0Ov9xR}9
z`P|0(XfMY_$k7IL+WR@qhkXhYfE*N{V`r*2(%Y#t3^{lUus-8X+o88x=bl0i7SNI8
z?Q4@$;=2bq+JKJChXavwSsi!D?m4#qZkp~x0XkC8s_`u0p^T7&HwWtzVrM)s6+099
z=v+K0?NY2H7NG<GUEmw}*O-R&7N{zp{n5eu-VQNB=)nJ8O6p*uoExpjoxnuA+K89+
z4;DaYY{2{7942U<c0_C}2_=v=Vg}ZS^gWlZg(XQ5D@Vn~SL04h8lcl5;~K+u$&tm+
zZ*VP#p^(7{(23lcb^C=W;pKlVU{rL5B8vskiK&0HuqVnU^o8GX+x9O-@Q5k0KJdS@
zlu#>KW^EX&gp%dBtRpO;h(qYWk2|YKOH1M{zBlScTt>Pxb1@i%4tzZ)QQY(L^}%5d
zCsmA|`RRS-N9e%UGb`bvC>}QWK&6&9m1a<ZZpj3!k7|-N3-ymj6^nRME~c5PALR%g
z_<HID@1X5Dg~L~mB8+X1sZqNDI)BU63o05;=4W?X8QF#^&WHj!Arr^iD#Lr4N!2!F
z;|5eX){T+%fnPUzhI{Uk-d*<FDZ*!Z7}X^-A#~t<qD^@8WM%^76Ux7Q@U0KJ5CrJl
zj=QsDS+{9%=GNZdJAY*}Q~{kjrIE%TVJ|-8{w~K6XDWCTA#~usdz<ktYudx>_gWBb
z)=;m&wMBvvSm#pyS}~dCj?jV7CmU`iQ<~*~jt%8dH^YnOZ_w{$2O)Ie$EyXe=)RTX
zq5(OofKCVZDPksDQX2X9YnPLx{CJ2EI`Dlsoc-vTVbY*u*v3R+T-ugNk0G+o@ZT4f
zF5`=y#W4rZ-Y3Xm%D)K`5ISdIzq>tkHzz#vyKlj8%xHnm>~^3J!nw}DoV6`f($6)w
zt><WEtk@soanSuNCRB8dY;J^bv_batAjvBTbU)*>bc*g*iXK4E8%XyveE-P%tq;w#
zRBK9<3j7VcA-9M_*az+eAF=<|np&NlyIb?U^3>%n44`vjbDy22V<a~>Ew>@(2T2zi
z)QNR&{3xstmZ)&`l6I=`SETy~K3CqzWbtLTFFw$76b|7&ggd`-A9&yB`I}UFQ#8o<
zq3b*b&>`o{|2eXri$40xG{ZsnPzVj^3}>APRXBfwZ7Jvc{_lAGLV^LZ^Avu*=hHDr
z^9+qSjz{V!@_Z=LDo5zR`vm@|k)(<~GhRE$>8PVj^34s<sb7%K%)i<3Mt)jXFYW|&
zn<$`DC0b4$D8%~-`=^~--!*e`{Wh{b@VQ)-GiAMfhUuP+CQ{O`e3~ss=#ap!Ka%@#
zB)9f2i(D8~)%!_3X^KVYz>nAQFB!vghm}{nHgm1*_YcR75IXSZL&w>oAo>Q~9O(HO
zjnIMj5xsoh_1#I9P41i}#|k3HO2RF$&Sj6!oT4OHpQ??|;T?I{&WQtba$E8?mj%RI
zP;!$2@h1l*F@TPM2iAIZcKNtpDbD0D>fk0Cp#$&yXUnrqahUnWa5aNnLBccErJKn5
z!1vF|w~;HKf|t%gP7|P0u`GV-LfBJ9(bsHTx(s-dG=vU(uI^pdJAu(xKWI>`uIBEY
zxP?LJ!1s^J!3^`E>b;kI+L_Oaw}rFNfR58h#DI0$nhxX;^pSOjujlL)yB_5U`Qwm-
z19W<GUQZoA2p@(V44{+1p}=#(U-tEO*x7Bq>%z@wKxdeas&s)$_!Z<3Zh-YM6?ay%
zkmeVJ92}rC6O;H-hsiJ*axj3-`vlaFtK>``kb?$vq_MIwJrxiCt%slo)@Nt$@R^fh
z=_<4y9H1j~R)U17$6Nt&Fn|u7k(&Att>G->paC5M$Bm9}7b52&hj1ON&xn+)vA3T6
zZ^*#`Iy8q8d=363C6I#wbXJ7L)U(5t-a`%=(76;@(ny!t`foi1U9dh5qq`%;mZwai
z_22*<QP(o+CwrE=kb?nqf|}9o{iot=AO{WT>`!1l#)wCXAcvp>)@PHA`a$OR9dpRR
z0Xnn<3xni*{|3mx06HH|U!<E0THc2oG@wJ=H}>gel#(Xo5Uzpsc^P_vOF4N_4RUaR
z&WDQ}Y@_-S8jynlbnGRT%x{>#>W3UOpcAF`<H>Xk*FT4F6|B$n&W6+5DwF`U9vq;<
zqQ>At8`ZZ4IT%1kf;?<>w45;>a?pT|0rmB|i?3*MAct@Ttk3TmqUU<Xn_iHE19Vn?
z8H#!7E0IGE2GF@jeEY^3#&>Lxg9db%(5ly$#dN<y4&gFbAE$y-Q7sX9jgW%_bRs^V
z3KHu-uz(y4pi}zE$2uj5y%ciLfKJE3NY&B(nn1`QXoL0ne&Q-tDnkC>eFq2Vyit26
z;>z>F7g`Sn&@q<_Kg>p}y@4Dwpo0yrQ}Gg{n1URF7FZwme)3b(Til6|g9CI@bfg2c
zvl$m42LtE?cZmzO+$sEb+|huJU<;213yr5|^V`aclJ(?W1Wjap;IAu9*J5V=XpNnO
zoFYKSIaY*>rtL%x^!n5dp#y(C$bXaj-edOboRA|5=(tDZw<mY~@(>@fHJDrGDPGq=
z)(5^G+CU}t@5GEuK2iw*x{cz*<$%s3qy6N}k>6={U$2?|KKQ)g2Ixdt1<B4jZAJ)p
zJgvN_N}nYP=*(#c5*sT=+=iU>OJIFuNWM_^j=U#@oN_>Cf!w>_ZW*%`c#gJSQJccb
z4WR>nzph<kRd=yo=Kcr0Rp%E<URP8RI`HGpL2;Ab`dnLRNQXB~3tN2?5ug**yp37&
zyRRt_MqS{n@o2Q^B3Ne(Ia<4yh-rs4hC=223(t`tK<BArKn@-K>SL`_Y<zqlcH31E
zI`GabM~C{SO?uPWId$D1Dj(~oMd-jg|2RMD^x+iIgD=D*t-KZy_#SnzJ_<O-%F;ja
zcU9x>9ql@Q8i+&az(4m~@Kl=Q(ATu~R-L=|B0H_x4WUB;d;i&4i}f4s#QSx^B=wVF
zlBjMUgbuvVBBPE3L3#JD^v{BT=f0);vVe}Qex~=Jk&WuzUi5>&w@<ux)xbKxiI+0F
z`HksQeeTMl6Loh+EkXx=-${E@$)zgxA|{_h&c8>y<U$Za2j1Dmn~h`yd-$MvakOk!
zL>z}j=#asV*V~X*%SHVpCLt}8C*8Jjf^G<%6EJ6GG3hpQWyStSdX&K9WusJ3=lbZ4
zL#puSU3de=qhT_#6{HS)Ki6*PyEDoj>`?Cc9aWlbOzI(=>ojbxG0Fy$gQCy64e0T%
zwZ@g&5rhu>x^X|Kc{598ud3*3E_16wS8@?T2Y%d>E*GAWQ{t7za|;jK#I0?VBXr>F
zad^tfv1b&U3Oy$v-G}F4eOlM1_bA^xHryh{#BD8~kO@L~o}Pj^PQRZ{{-Ahxjx;;P
z@?21H93G*=2y--SZzo)eQ5T1vTlf)PpW&Z_%o3g-DqE4wY@Mv(OlaJ(AwuZTz}8bD
zJbJQ@`r!JDIg%Q&MYC8@gbw_8o%U*f^JzEcF$xpt6>s=3AL)AF*B^g78f{nBTeCaf
z5|IY)<Lr@khM(`OlC0@N!_~12HnIIThzjMAI_$7MM#^H7(Izjt{QdHaxR3v_wnx~9
z3g&D*)P5Z!i6U}JIsZ(8mp2uQ(1Fi2s-hR>T!xNYIc_|*JP_QE)PbL;Zl*7un7y;W
ziW}0Y%C$7v$01w~HEgcK&)kAhl4eG0^~)v`!i{>h2p#zTS@660Qf^cNL(FYdI;nC@
z3+Y_&`-Mlfi8vQq+jXvE?N1#TRD9eJu16U*my@0m!(Q=ZE%bdP7QpBE-I|I&t~Zmv
zu#U$36wY$$8UcJ>eY*cmXe^?o$gaYvr?LKYY8s$38)K=o{_s#t7Jn$o?;vPz1n5*~
zKV<Ma%FkFZDfcRScljd=p!3B+Re2!%?$g!O#eUaa4xtf*#|!>ECZLs3UKZx2w5aKO
zl4<96S{k6!p`^|->h;lL1S5KPgb;hv2+*N_(9uYLT&<UiQ6wQZx;T~v&<WFS?~-8u
zmhkD!5@~*p*ZK&;`wqNMY`cD#lx`()dc(xy2U`pQX$T$o_4#CWG~1%fW(M>+1%uFm
zujf@--zIanwAZU}|J4_%M8Rl4r(D?DF<4kB8FB~+pEuy^dEY-FK%I~-1UWcB$1PZ$
zIJ}Y15ppnqj)0E@nW7>-7jn>mPTwr*n`21w9OMvG!Cqe+$L-zTC~A2PIXFN^h*(gr
znffC)<X`|D52~%H*;Hk9$Uy@-L)jL~;`4^?kV8-b>vQjpu5}k`P#JP?fR49c@6bni
zITpyl06O-Dr>gyh*d9X;8qlfs;o(Bj`J90qf-+biHaBsmnKptT<lq3E{nP}5gj(?n
zkb?nqoK30DlH^gzLk=3yktlkiRGHsZ0yzXFus+wP?Vg){Ui;S>2k30EoIahX$T$qG
z2LtF#tRC^$X|2pa4jRzmiIAF6+9dmTJtQcC^*P7Z?ykyz*AH3`4$$d&J<0hX#ee9I
zZPbo&@Fxxopko&NLI2jD<!Q)413D(#vd>F?+|Pp?f&y5dd%6BSgFKd*kb?tsNcwe;
zJyM)?g&Yi^^Zd-sVUbbCLC8S^I`Pryf;2NSGsq#xgY}`)e)NDd`Q~59!2vq`%C>hJ
zf;J5x2LtGgF`qPl;dSwWOJq*ZycC@?8qmQVRxAD19>{?lf*e?%UqpH9juM;Vkb?ts
zdc8K|{LZczLJkJdX^Zl>w=hui3v$qa&QrtC0u^oIBgi4hg7rD2Bz)iMxy~ub!2voN
zoSMROr^SOI2LtGgX|<j&OO)4y95kS#ClET}>)~PvIRqK7K1=Q{S2G1fr630f=!|(`
z?5sBe!ypF(=&YU5(bF}4qz^f0K&NhP{#}y4^%mq1q`~^Qd9ylRF>c<492}sN^R@YX
z<;$ja$iV<QX~CqIQ%(A9_L-?^<1~~c(SXiKh+_Wz;@>8aLy!XN^Q7z%)9#GwZh&sz
zyl}Y3HV)9KubsqLij8)1TLfH6DGH*+06Lr#a~XbQm5GEIo|OY5y;d}!!@SCP@1$?V
zhiJ<yz9=aRE`lUjAD_PG6g|fuW?dOxBXiWSuf+j6H(28{>6s|+w$ug2rYbs|#Q-`i
zuhd)T>Xaq6O9@J+9B*Wz0i6WK0?Q#^?)SWwx6gd^`jtnJ0P7R#8gkB%Nc|f&D5dZ>
zBS|$5(AmscBgipRD?AT*5l>a7$czDWNDV~gg04}ehAK{&yr_1YKm$5ON0qH@E3-)j
z+gns`RMTz|#KHQgQ+%nWJ(pXMP~mltKwDdk19aHPPRrZSlSL%i8D#&EWh}%1I`2z8
zgF-f620p~vm1yP!1fdZ+@Xyhl2mCdR3e%RC3+?ry4Sz-vA#~vH|8Sl1`17poOweP#
zep@}ytZz+XV4Vf8?0>cqUVAF=A&%B;@)cDOpmQq5yMjwEYSMea#%Sh=@hw$A$JvkR
zF4qZiuA<goY{{qXB8UK;g_YsGlmeSVo0)suOEy(=O`>3ZjK2)DB;II{xq<m~R5HF|
z5d`Rbktp{lPcZU;992Mv_LbbPi_~ZSKn@Y0LovVf_Py;(jMsQfiQc=kXH6nteO~@n
zwasW0*}*>3O-xBu*bV}841DifWi+vRpdvr&kZOugr~*21Vx7tL-QE)Wj<0Dul9{E5
z5IXSBWoBipo4H>Iy7+hBH(E9nSzEdQ)`#$B`5-YVMSSKP?`!(g4mXPsI`H-Q(4`IU
zJiTZV8M<~YKVGFT4xt0TZe(%Dr@MB4OVW5eOe8h(^pYN+<K%se;ia38?<5=3fD7}0
zGA*Fv>s)t;OF6HHe$CuS(-D8FM;NTLvz9`U2dCs{htZ-<kgsh_9H3KYZ}PQL<}e-l
z98C|<sc6QK%H*(}gB)5wN8gFbV{lmdGUW6Kf%Rz{en@1d!Y~6laez)3X;lfYJVid_
z=m9z;@AOe4IWi3Ui}yTKyX=0^0y@!!DUOFG+R9ZQ$Qig_F!%QeBI^VHoXEyNLXe+3
z5;r+~k0bH>e}6p}p#wj^jIWgbIC|UvGyinl@Y0?99wR_U<4+$+T$0AeGW;jXQ&-*(
zvmkWfbN#7WxW)7M<)0^pnKZY9Tonld$ojzNV!Il{*n9EZtDVPJ*<=RyeQ|&eFQ<7)
z*s%H7zKy}SVG=3`1L%x@unL%Sn7!0?aAjn#Lo^wU(1G{)v8E$CW6><1`sqMb#lN|1
z={#7UI}hG*SY^F<@i_14+SJqTjUqrN;Y03ieaZY)Kd-FDisA!qdqC$@`Ry17M%rP)
zlhHY5^@H;K2pxEzlkXGLNlQ%nk9+?mVzLQuT;~Vt<IcOXz3|C@>Y{wp8CsH`U&{fV
zgoLw6frDR0$$u_hKcggA?FQ&DuyD-?pngtWTW(gY{Bo8ciqL`gxzy(!z56Wn#)D5v
zRj)&{mUj8T`dIkZ6d$_(Qu;RHaIY@dhPD>a>G`%9v_)CCbib;kHaX!+pASL@KG%;<
z4zj-!R%?S}HD=KdzZ_FV=)kWV80*X$t0Tv3466B5gm;_=5ulSn6vl6@dr%sUH5F5$
zw!k&<f^{~_uG(aAe##=JM3w%lYwUCoLI>W5mz=`z{bdm=kF?x*HHBl6+6WzZAL~B$
zr=>C{-Lj==9x71YXGQ@!_cW6NuUFqY2+(@(AQR9gi01+8Ly0oGo<re~+g$KqD*2*Q
zF&3c%@6#O+KaMZ3;U*ajGiKH*ZP7#M!24Xe%Z9F(CTlNvd^uWjrk$A<(BYoFeN`ZZ
zs2O_w-op*nhiuGjTL&|H;7iZ@vye7BDGty%(&;+#7)W>VQqmQ*6H^k>L+HRe8y8m&
z(@^^PzfHn&PbNk6u^@Edo$p_v9lgK&?wfVDo%#A`ZS4pbSRaReIZxw(#lDHDECW)V
zkJ4#?PGw{tgG8wvjl|4_6AV@hN=67Bc%Ru|$Eb?^4f3vz;Q;zNUs^Om2i|80bFR8C
zBs4X$euc5A2|rFa2iE7E?hR2tsbn`&;UW5jx%cxpgbsWz0m_ITi}KYV)3oLWq5ZGt
z>=8Qfxn|oUFP5zBi8Cn^pA|7?u;WMQz}IurlKq}So89G0Y8mZ*NlgLkXTkc=94C<o
zXygi)Cogz?m&GQd9MHM$^8Hz&Y^y`>Yzd*qXq4Cup#%S(r@qkR{g{aU-|^YAm>ueu
zw5kXlcxO!)l>yRzEJMV=?@K{esxm}?&gX2E>$5V+$8>)wPf+U*d~QO6b*61l#13~I
zq>(FQSAzGicm*MJ;K#j<uVn7$^bNaLsm2Q}(xg$^2pxEz`jYtCrmvfsk8Vrd<$1?7
ziUM>pkBx|h$%dJ~JAY*PNVB06&xx!Ld@k;8uTX8Zr`EwXS|7hee`JqC=)mW?kRH!_
zxMzBu`Ofn!%B)ZsJwWGNkM#YN&%3+hI-S+mUi!Py0y?b;(h*?_Q8#{-<u1t+Ic)TB
zfc3dPGhre-A?7y3mUQIjofeyh(1G{q2)sQi{%G&pqr<D;x+b(LjQ|~^3wW()y5C!8
z3T^KW*L-eZ0dzvHa69=76jBU5Pd%MvA~!d}j;s%SuKT-_d4?l0fnTq*NLMnL{z?OM
zMt$zwV#%-5WqJQq&oF~l%?P0b-_POvnrn0Fo>W(jT$#g#SB=pK9r#?&c^4utiLEI<
zatVCI>(g?Va0aZ8x%7Ar9Z7%E#lQ8Xxjq;6a0ngvTyKw2RB47tkI|NtT}r<)a@roD
z1E0&}Pdo9US?U0rQA2p%WbHCPp!4<PPYUL`fjs;hp}P0GwJS?($ojzNnj?D~^7yz|
z7^ArSlDZiEVL3tvK9{lPe!Cp|#mAA~nA!d`=h(XeIzboODnpJ=gazJMTci(iQxOGp
z#`HSFw`vS56m}DjJO3FYUq21j$MHjs#yOsj?1yB_$$DEQM70PVcpr}b4R0xm$5e}c
zySj1d{5O37oi&Pzo>T3;55zgO#Ms$FG-MGv@Z&DWQ65kp{3bK`$8p!~zI1sagbsYJ
z6a!7y(7*U_H&({g!z1RkCRVV{e~;oz&eg^%G1X>|37;*E!Xk9w>&Xtibn<G0{vwmf
z?nEZq%}g86A(&XcEA?2HEoCJsEt<w8p%6Oo&R&}wwA8B8#EJ&11GNPgZ}qSs>jR%l
z$0X`bRyW?8nJ~o9CxN{c2j~bZ53kSLSIJs;zP!U6oJXz)=){qBS&kKRWc{L);_z}1
zY@$Wz!258{%%J+MU)Rtco{10sS?M>z4A!UOOYj}nK8`azd+g`S2bH$c0G(I&5}t49
z4SCgV52aO05A_)#bl`L0P<USLxKB(!k{10o&hT}i5jybW{@+*dJ&LCS`cyOBm4bPG
zw-A`X`j~o_D;6E@OWA){W3iH!xrYOE!r6wKDhlV$M?Ub|5#KIK!yt6veOS79b1t-;
zv0NhAmL4bS$>vAs!284+sx7tVafXQU1qg5}M@KI)g7smbkFe9-KG_zWuwP!boEKaK
z=nOvT6cg$dw)n38x_wI!_1zw!1MgGix<saTN$Hy!bw7(eC99PvLI>WbeUevY$w?tr
zgc&E9o)NRL&H&cuj^avCG?i%bEZJVz=lS2S$^o5*57Khg=RI2*U!qJ;kmtL)0Xk<|
zt1n4kR?p-zW}NeXcBNbtp#$%H|Cr$Ix!}iqsE&8@<E@qxyYygvP}#SC#V5FKI901#
z?w+$Ft_5_?DsKB9@thlor1|k=@1yNyA3&$YD8we;w}P&yKYDB8Mi-|nLI>U_pVX6B
zXON3Dh4LWtJg$?62%!VthifrU6|srltpQmB!(-=1#+y!ob?$vrW8}U_r>M&M%RVk`
zJ0b|skq@h0mTRcVPMFW0H>`RTqYCKgVgtWK7g60R-G6hRJNlCg5kd#vS%XDc9oxbt
zUo3W<Jk9OTOFSJ|A0yV#jRR-T`q%77gD=F&ZeszR{m-wbb5{dJ^ywDQ{@PwQ(FSy8
zf0ubG{GQS*vLAVXp=Y&4A#~t<4C?5c7muGeSibzq;IXS)dk-yGpE>?Pv(o(P6i)xt
z_NM9dZ*hQ5Q#+T?r&z29rsZ$j)@xo`JwQj9SLU;3#1CH!j^0SaM<0S|0Ufg5s`{rE
zUGaGR?KDppnXw)kus-ScoStd0>Lu|Mb#o1e>`25Rbl}H}Z_Il~+<$(+lO*Sn_Kn|p
zMhG4FbtCQNo1mmeCu7!7`x;6vTz)Ko&P)c!`ofXM>!6so(+V$34o9fL`urxBS}*yM
z`kLwRo=jZ*my|R>=erQzpCM5^mVN1!hX~u8w-KO2?M2X|4<Zgzqr`7)pHVkwLFmAb
z*R)>9$$J7NJADbFnUWqIuL)FOeN4D7Z#iGhjhs46wkl4J7Qq2Jsq6uzdZShbuk9RJ
z(?q(iVgMb%yG=x&sL1#uQ)gIlsn%FDLI>W5xbb1%v1f}C`_xPPES0C0mrjE9`6H>B
z=P&v_Sy)TQ+fzyARS}@`<&$A{)FMA;h`+R*VEFyp_JGdellI#?!KKnviX4Sy2HK+h
zfQ~E)=as>9(T6dGS7-2T5v@y<$ojxLJMY;^FyvVMeE9Mx?c$vqbma&g_;n+!JZEA^
z<MiR`O)26pqFsA#fX-n7Rkme7<9j21o--e;0?S1aI`Fyf5lenweIC&?==X8IN+>3M
zmjYQI_*~7a4GMWy@0L2f^Yl-}mkQPbI__UzSq$o5EBTgxmiZE9RLKX>`F%S!7xn1!
zBGnar)0E1zPFaKwyw9V?yQudG4dnq2d|82kXMKneI`BR-L_Pb3Wu!e_(;2KQTbfsz
zPJnfO`S|;fim;OD37OATwap&GL4c0YXC=<EAiT|sA>vy;4&x|QK*!!WY3i76)?mdG
zy^DNoH9kZL9eC%Y=e+gz!uXXl28AAP-0+jfqrm!jbQx#~6S=G7bLg(|E2dFn0UehY
z4GBHu)QbE=j~yEnW{kA~orqWVn`>Kciw#wqSoJenPAG&9yw3-j0<Jqxw$=S9g0phZ
zH^1v42kSHC^Cm~yBjxn5SD6*JpLk2f0XlxolUlWuy+%U?H+3z-chvO|I`FwVF1q^t
z3E;1(diqsNUbKRP1)&2!zk*)5*dF)dJuNAC6tL{-eRqTmtWSKe{!<EWx7TsLYC3aU
zJMw7=9r#?&GLD$~t0UDT6Lwy%r?wqn5IXR=_7^QM2KI^5Q9EkiIk)r6(SVLEW!Q<*
zMw1Yh22OIkx+ph+6j>kmTn%$OoeGo}LsoJHMbj5{$BPg;@VQ=L{ocHaEQox`@Tu@m
zpTkRgKxcpW$>x)=I(<sz7rzp3SqSk1Iwa;F|5Td97|-0ay!yi>`|lD7Sf5{{)aBW)
zta24r<oJ|(EPBcjI`BTZht}q<n@l{(hY<%Kaz$O-03DH`lS7{!rQ|qrOVTw<Bqv1y
zop9~)r2%76nt@cdTl2@o)Ygw9>jR(booj^ZgFnS3(jKGjIqI`P<$#XFbFKpA+^!Kj
zPVox|whtb-A#~vTIaa`o?%?)|`FepwPM^Asep!SLe6GZp`ES2Bv|~?eRT0HKnsnVg
z2G(a}<0<p5y-B{<eG}K=4lDawgbsYJzaEr#-cBmVhO?m)S<SofK?oiAT-RG(jgpqd
zqVB!+cyx|0!C4j1IVGYrM0{xd(t7Qa+sf?dED@knkd@<kJ>!l%MJc=E>b@9P6EU*R
z@ID*ZmX;a=u0+|~!J5?-%{N$t4!qA)`h$>|c=K?r1FjAqmnU@E2p#x(Y!3@%P9+`>
zwZ-0evM_l}l@_4`Uk^>ndv8_&9TOUYIZm4A1!WHrvOaJJlj=va+=U73UFx(fHnNh4
z19Z^TFGRCn)^!S(Iee5Nv!v8R=)n8Xy&o?p?hO?y{`o+tgw3>o1)&3<i&^iNO7}JQ
zMbl}sS7HgVR3k@!kN)3(us<jG|NSrA*_EiWu@ay?m;5cDv1&RfFb$ytpG%7Wj92#*
zGdje7EkymVeK7{117DBin(C84rryCwr&pHf=0&~#ey9;>uBwt11rto!P(DrDa#fYu
zAHpFr2R@fB?$l|`4|z>dT+a>STz|V2A#~t#$#;JlXYFNV&s<RwbsWf_vIleuH3j5t
z`~8o;dNk7>S2ZN!N9e%k`nA4Vy>>oOb=zPfg01yW@cLh5ec*F>-8_9FVj}SfU7YcO
z*qHW7IiO?0@@kS~_LicBp_KkxbjfcwgbsWz4em!Y&tt28g*^Ildef45UKXJPpX>bU
zZ^NCB25Hqt9s0f2TpxE2!1^o~gviRacQ!MN&jc8AZ8+8<bl`JcOV_LHj-P91E_k0y
zSQ(uQLg>Kf($3a2XVi@jz4!ZtA|J8RhAN<AJAOZCu<f>e^^J!l4~_>p5FvEna}fn^
zewNB}GZ!&#%iL-V=EVO2>ul~_=!t$+r~Rui?mNjjqggDVb0&+W=&nkUfZpU!tU+;~
zoHjxSJ{PBW;YH`D+M%eno=uvH4+^vh9r*EjS{&c-CW0ssFC$L$f<o(Q&pue6tY<W5
zZR)O}{7RQYe?(N3!~r^7J!cw~2z9$l-PECd<c!052pxDIp#pRFaqX%eX1n+MnW@vG
zEC?NVA5&BN#(CCUR-f-0j2&e=)+2jheW(`}h^@7n%4!DJm?ms`H`5S0@VR3D`WYD0
zUv3#!P{!*$3G2ilbl`I_R+{7YYBla|9-Zd<Q^*yL26WU6eeM&l_?;`6M1T8BGc`fj
zMb-yCSK3=!QRgrLDQ_yi`OM`0%S8ws_*{bJ&;MLA^}J@w#OSb^P2_J6=wMlOCXSP@
zZIeH-$<KIm!jK=(p(jrJ@2{$Hjx$J>uqQHnl3V(XtPgyypNdl%0!&=b*2K><y}s5c
zR|M$v-Tu5i@n)Rq^Ct<j`5XCB_6QyL@$wu!R%+qB#z0P1cGJS*a)Bs92R@g*(e>2K
z2WbO=`C|G>k0`&b?|}8$PP3NX%j30eQ5XHXn3ndl9MEa9;o|20knMO(>+N2-&YPcZ
z2pxEzFHJ@!i?1IXomat?2r0^al11pi`@~*6+S_J-ltd|iYkbv{uWNT3tPhnmYEM(j
zMWiD&u(E|dQLq-!DU(1sEjs=xrMekz=2|7f>;vc+j@d+v-kCY};2jH{lnP_JEJ6p~
zxy>wbfGIx7>>jtrynv(6CJ{mh-ucsO_t-|Odkd|)%0;Uun}(XUz&g_vavmEx+&ub0
zBDd?9Yw{onp#z`m)e1}ayTFi3UJH_c1(hrRY9n;ubDh0AE<kb2V1D41!D#eh(;F0^
zv*n?XcKIu#D?3fk8LKa+@8UO+^?}c&qfTDMi2Xo)l2GB)xQeriL+HTgdVegy>{&+5
zL%U;(7>-H~T|GeO`r-NOTmJJ7XmJ(S5~H^*v<MyeT%NDEm&bL#X>Pwhea7Jai>Z-c
z$ojzNlJIX5cYoQP9>T|tHM`N1n+E7uH|hJE2F}*>dd%sne0+4l2%!U?YdMO)Wn`Ty
z#YpFczIo)U1T;biKG*k653=4m-@v}`%+JM~%1VR{us)lY$O|d&u$=GS472!AYI6dI
z(1Fh-eRG<8%bE1afB%y4g#U7yggrtBK9@i?IS=-_<lXQ4HcdYd_nr9xom-^^UY2a<
zGgo*v-l|-B+_|)ltPgyyO2rs<@8N*m>xtARxqs)@$`Ly7xzb%RTMtKf)6KcEqiPd2
zwA}z5=2nK3?eP(1J9R?04TIBpQ9#GUk*ciUs)b_l{7zzIsc-E18dx7^DWN{e6Ym$^
zk$8)xQvDsTMd-l$bTQdFR8_~%tJEqUsdT$v^Z|6@Xt9Gg+=>KzvFb8{azx){5jybW
zt|{@Wfx#lGw}33tGq*0wiwL0upX);W+gs{JD`l-A!HU%=uhpiX$U4KF5y3EWgW{-Q
z<GE|W>=TY3gAh9KxhS#srSmQp7<Lbv*6ZjQPH7`_;OoinFj^w|aJri<xi9pD(#}~F
zptDjHe>Pg~Vj`b;<BiEr9$NSx$ojzNdOA8zCeo<nx)}I%;)fjR=QxB8e6F-B78JT<
zW@3GId9j^;N|W^f9m@f}AZ*B19r;PWv~ypI(`gYp@VR=6WTgFf8v`V6m2_V&3M3y{
zMb-yC*G*L=oStWp?{OvSp0jq3lG6Yk5mZ1s_PB%WgX}0e3;S_WBS5F@oOP>q?8#ld
zw`RDq*EvZn2pxEz$a*IiWo4rEbJLFg4wU(^gzsQ|bSpUq<NU0N4bR@V`Kv~J3y08w
zuZJm(w&y#Ep7tLzo#IpMxncGQ9r*E5rJf{hp7g%dr|Kqi{hfabKcExB%1}S{*J#D`
zL9&su@P+uL6=Z$jb3GkA=H4Oq6Q4W8`SZKZgkw2E2R;|RV<Ma9WPP6ViznYarq7bQ
zA#~vDvB+O-IMd;iAdNmgr>N^(C5zC3uO}zvjyG<S$NBq&3cvGq-RkZ#vOaLfIF?WP
z^X*5K%#Tvum}xAC)gpA@b3Gkm791r6I~X4D$$1YmF$5uW;OjvNcw8NpU#N}FX{~tP
zdc$26(8(iENNk-6<9L`mor>L>dQSxCgh$sn#3}|V9GK1H1B{NTG%X?P4DZv{8-wCI
zIhA#gl6oe`A>Idz(1G`fe|G=LZ_V4+JtJbNKRfGR(*|@h2%&%2r^QENrP4Dbe(e;Y
z0G(UD4%9Q5B;1Y9rQ_O^3zG1QV11G@X-;ijw{<Dy@!ct&Iq4gR(1G{)aQ|8D$m*U`
zMBpiPZS^@3JwPWjBh>`Ms;^L3z5O|fReqHgp#wkekCkH99|^rHGj7b;Gw>rB8CgKq
z2R@e$Ysql9O?0*S(*uGvQOv_MK<9I0FprGUV&Y>>lap~RoVSeto$TI2Ef&r{0a0{f
zW41vbX;=_C@IDl{m`?7N<9VN}i+qLVK1CAd!TK1lYs&aoqLpp>X;XVF$0cxp&V+NL
zhoID+#0|b*s~l9lCK!Yce69d-A*v+Kgbk|hXD2-#8eHc`=)jNrX^COAV<ggMCL%q?
z2{DpKOLJg-64sv-jx<SLZ4?di4LNn8s0g70pR0yiOR3Lt*5+)7nEv=R-*z{I4ty@>
zPP3Lxi{C2u9J+i2Qt(rvfR2gmx6-b2M=_UA_|RS7v}akL1?%I3GV0teDbm=XqUou2
zi!v=o=)n7g6@JC)YX3~#54=od+ZKTKLFmBy(2d3966mZ7pO|*L(quAVWC0yf)!WMB
z_U~V|U)YfnIn$o8JA<qbe6EI^yVlbrXZ3D<T8RrRmB?;F=)mVvd6aaj`+~=7$%YH;
zk*wlYL4XeN+dw+&QBTh*+{$4z?Y%WsgbsWzvzf;wSTBwbXn{|H7j{GsQ3xIQTzohF
zXs~|t`fB$_Ug^JoPoIyUM%Eeb5MS*HpF}y`AGDjQeZ-cLj0JQGJo_%B-0h>b3ha&k
z{JUUA8_>BH;rX}0`xh-)JD&o<C=ZVUbR0~zza`~&W6#|(iP|e&{*EVr^<mm*?hF<8
zX73QLz24)f7K#OQG#St-ogFeyp4VqKY4HyfY6Cj1aeS2K@1BS=yAI=*H{_B~fQ~Iy
zJ;_3Tgp&tlNb<6MQY(H6tk2U!;rSrvkb#w_JIqU)8EjZUM?ZY-_LDJ=FnY6vRG(B8
zEp0%jZ68gN%uw9xsP|#>h^>tk1?cQn*Sfo2fAfxaV&T$z2J)ZyNw7XAczD)!#=@4N
z--pElI?o~;&wjgpi1R#%^?RP=?x2m(LBYN$*I7MV_k~MILiOB(T)v#reN}`G{P&mB
zr-z&??j$h=9)=n${YCF#5IXSdk3Gh30VR~?$M?7LSv>hu6EvVhv2yaJB+<9L&UEyL
z^!Fa$2@_z)s|r1$Mte=YX(%qET=7Df77oziPd%XV{c+)D1<sw4(<QqWgV2HBFYvQ=
z--+0AocUVwxoY<F4EPZ`@W0P5agMesO-)Gy+CQ`i9r*F;84oPJV{*Hd<4z=@Rk>rh
zXB@0^W3kB3R=+{E79l11sxBW~9H0|_W!LQZw+yUA*jqXd3|2=E(2<eUzHC=;%tx&d
z?WQ`z`H~jUVF~LAI#TbNSm=le2+ni=+B1f%5B#{la_kl`*~}j4C{qseGvVS-L+HSd
z*UIxD*^S9h(+%csYm+zq8jKJ+@b%d46t&<k^{H52BMSLgL8gI5=)l**KNNhTqssne
zkU}5BrKW8a!YHynaOdc%-Is;yyaw(R?BylV6xBF{4t%aFs&AL(uSYz5yjONz^|e)z
zJwgY*9*oXUv#HLHbH4L}o)Nf#0e(QIUn8Je@X1xp3G1)!Q<KXUOW(lyytUZBRCSux
zy4;ze;;b-(ND-jp`D1KWid|%ywTHZ1t0OMJ9?;2F`NqF``kuvii^cMX!#ef+fR45G
z1nu>KprRj-ld0s@eu*rNfc2rM<F22t>E*ze|9JDTmVLhn(6P9~_)>6LA2(w1$6~_k
zoUA=U2Yx@Ll?zX9aZvAt94w&YbM=aO>A7+)@sO9JpQqaFkj@1^FHTpJg?UL(yoDS$
zgzJGjZC~)xJB@M#$dLtfd?GJei19sJ$`Nf&t0)MuCPL`If8WYmxKB#M|B52y5QdTM
zAGmWXYGt42M4&6=Gyyte?smuRhf?lA4i3<H#&Gs3wVZM><OBgaE$j|sY7I}@AO{2J
zM5mi=h$vuxL5?b*6Xwh@wAXjQ1vzLy$G!IMZsgi<D&!CWI>!`?6eG@$zl0pZ5ZL~S
zvQqq$Zjq1!IZc3$ip8~R;*gi6kb?ts?v2xMH(O2(LQW8%^Y(X1bbW7uHsoLcov)Fv
z9<y=Zw1ym2K<CxIm*jv1(GKLG0iD4MdjYje9$Jt?1n9I!VSk^MYq<?Mgh8<VV?Mef
zC)9F_404(PozQr#!9n`aOvu3jI^)Vt&z0Mmy&xwD(3#$xR!RG<#|=3cKu1WZL*sqv
zED7YO0y?H%HP7?@`=dROg9dbbQ$Me+R_fP74iTWk$eDC^X}04$<PZkH_K&`}xiVv?
zpef`u0Xh`TI*zr*DbFDX2k11&2v%R_ZoLUPL4b~{e4dW;SYH9;U;v$7Q>?_Bc!dtg
zQ3Z6S?hNH@vwP}54jRzWdy>Cn$TUX`IYfX?ac**ngTiV*<PiG7_Ro3dzBJORg(k>p
z0(9)2I1Z^8E$2cG4$#SdtzlS6&PoY6L4Zy)WjVp*TwxgGU;rJfzb6M@DLN)Yjw+zT
zUt*5+T4eKw95kTgvzN^G?#$jZ$RPrB+(`rbDW|6QA&1ZhwttTM_}qwpWO)&CngE@V
z$T&j@x8#4%bvQt$G50Sk&8)@0`%Vy`BUmLKq~wzL5Sj}E=-lNPIxPRP@^3$@0y;*!
zouqqIj1JIx(14ERS=CY0{g?l{e*rpgI=7CqcySy;>ml@l?VrH4Qu0MvzL1x${V$ac
zNqm|BosuUJfoG*fYF7)(>c@Wwkl_$I@b`ao?y4oWcHVIhX3e7szq7%ELFmAL&t+uY
zDE|hv#_FpR4;z)4l@>)2I`H)rDtKyGSe`D~4^w@?AM;{jy$4xm`0IC-h`$eo<*5vz
z&b0^~_<E|uU)L0DbW$H?KQY(8i(l|T=!n5Szi57Hu@IhDNH<l;bAQ>(_<AkEKJeG?
z0#34b$X~2B<Qq^;cMi^cO+)Cw=MtdbYSD=hOx*3we%UPXI?o89Lj#-37M1vQJ8^S?
z_02-}-)06aEJEij%qjXL-da4`$GatSja|O&u8}sv^Ax@hpPy$-PpBnrF!*)t#N0Qr
z1{Q=4{C%w;zZ$Kx^!*FY9u-rwm?%wIgbp=qF3rn&*NDG9IE2nqq}Nq8n1d3r+98)v
z8#@d-Z>7cKIJJ&&J@C&{Sgq468MbDx2FwP~N3uQ@8$sxhz}E9*kvFAyMBM80r{>UF
zVHxUjgbqE-xheKHg|%Q+l$Vv<pCNPoEz<it{CsC{9QQY%=eyVCvZ{j$dY6GmxSmt6
z_0W1L9S^jo<E1DMBKer?I6;f>c>{iaJ-O0VUt&#9=KRA&N>JiQU=PCe!1ptSeo&B|
z-jj<Gy5gO)FUjk02p#x(EJLUaLOEa0iOWT@IP49xBHf4Z<NjFDy_4s4x4Ce~)5?pg
z^jS#H3;0|o)3P{tPo&8tjS*F8@drFa0nR1z_1A6Enj4~!gGYG%f%l0!?&sR#+*k}b
zNUvjXhbr{d4q<QD5^}Tw*E4r;@^X+GbMD%rz{J}rV=M~Lxl!w6cS1>F7;^9k?_cn_
zS|?{?p7!pNSv?r7xnn^Tiv@JlE9$<od*RFXyf=r&K15Gw13FC!!c#A4iz)Wz>eT5)
zOejzY9r$(Q{x##vuBrKHHfeWBE0R8M_H-kA-hl7tXCCJ>{OJRqKn@PjahdF!$)*@W
z|8ixz`<|~h#toqZKVJB=o$C4ZysuTqE3Et<Xo!j;bl`n*NMB<u0`urs47Rlw*yeuk
zb|LEnUr&;s!%(7L2`}W-0y+j4EQtpaQ^+C52hdUe-k)I6;qK;1PxtjInOcV|pkub$
zPdasae-B#E?pLrro-uLU<C-=1A*UA5+1#Kw|4us83UYh^9gBqF&*_p)<NC2v^CNth
zM`RH?@cmOdF-f<}KYIpph!8sP{X<Gs)F8=Dat(5tI>9=327mavDb0MsEUJw=II34S
z2++y<#YxB7``*qe=$k|3A7W-zK&RrVIh(wsWE?aX5kd#v*;2D>{($p-ti;;>{lxF3
zPWTS6KDQfe=lKh(NFCV?!XNiW<zNAwrpP8g9aL`XtBkfqkro49ZG;YdF1aOo>xL>T
z+KSzaWNMXh(X<F1`2IobuiD9-?I~)ox6MLz^Q-rK0qe7T;r7f`fysDi|HJ`0>({X+
znW%IA?#38=yB2Ga9-u>N<d)(!d7KB@hqMSCcxU@tsm9rNgS1<CiU+5Uq;^Nz!TRXi
zvt0IK(cKb}vRHH3$_`Hhbhy=9H1QWbC@s^P!q5I(p)*40z~^d+uE&=1>o(BLzToOT
z{!kf>(1Gut(BWJo1+Bh`=Sq=+VSa2f1Uy)uGa_U1sfxc1m+jbj7POMNaez*;_(>Jv
zupM26<HSN|0y2&;fX-IAi-Dp8|F!IeD*7K3Eh}h1hwLfsn_xK+x4LkCBQ-(GM}*H{
zeN_J*o$L;4qOkf(KVb9qBnJ-A`Ce%seGB_MagBn%xM`I6A_maWS+5TAH)OJc95kR4
zviVY7evNwZm29hs-%k=ULK|40d!PG0S!5>V4&-qrtchMJ!Xb3v=S4-V$lpl!5y1<V
zryuaE=TzAPI!dECy#1V_hrIWjj1N@3b43B2@CgZuol!YljZG`R`|d2|ZY#1r@VRbt
z`Hh$7A8UD9LRWfR_eXpaLI-}nf3*@+4?yYjS@YPuz|WaR1pzw6Qz9|%R0im$viVM&
z7l?SFiqL`2<v(F~{iD^Nm_Hi1^T)0c7*K!?{$2RYIWO|t`*xyp(j=$Cds>inhQHp4
zttZyDG1rz&e&ha?ZDFMjhtPq~b;?SmJK%;{MO}9LSOCf<+aAzKo#E=H>f>=(R2R*;
zs`x!y6wtY7>CTwWu`ID}BA4;Bf2@7C8Cf6r`?UUd2(h$N_sPOOk^R{J88|tD(1G`P
zz{c?3YW8|j+d`fNM!T~(K&O5=sqHt(`dYbx@r}9Pd02ad4*a;c>zv1Jgyf3cy@k7Z
zKBVZAEJ6p~hi#GP)Cc$HHY<rr-WPv-5oST?!29^PSJ9^J<ORPos;t7&N4_O|LUz31
z4vVCi{IfrdER=zdT<Y>)3Ks!7t54|%Pk3txW;c9K$;%y6aszaprH=*0X55G{XZ$|A
zw51Uwi_n1|ud@Bvb@>rOby?}@-pJTVN)(_&JnNRgK4VK5+SMELp}d<i@)4|ao1_1|
z&XKq2!H0)=QMCIvaDa}K+(Vk%q@J^A3;!Pvo(w7313Cgh=XHK*f8MK(mpPr47b_<U
z==h8ji(Jl8Twm^Xp-z+8v)gS#)(3vPmer~5Ke(j01wC)z5jybu*MK#rdS_LQqMK)(
zr#OXFI2NG;KTnq*Fb~~~#$f0CrA$nlSS0KbI`H)fe6SIcJE`MY^%Ubjb+V(MAJB12
zn`Y5H<a!lNn&kUs6x+Vkh^#YwJ&Kyc#DXm~<`}MXxyeV|=0yk{`0=u>xTL`6u}~*i
zPI)I*r(MVgp#xvf!_fl~lJ>ue1+8pZ*VgW|$Rc#$@6U7VX-@5i-gwgxZTpx`Jb!@}
zp#xt}rn?|!^=<B6{@JhCDGyP}o(5!{;n!7}Y+1VQHN!-2CgUuBe8)i=LI=Jcdd1dF
zwzoban<L`0+r>=5MhG4FdIVEFJMJ7_nWbdEOODgm8$km)w`Vx+dnUSG`F4}|?AoVn
zrlk*Hef(OB8Lm>UvWDTm>wgpakXDY+f%j=)>&bVqG|{PTk$SUOn2L8p=)n8Txp{JK
zzmgdJOsF~CV##<U3+U9=WtL{Ee<PYSx0{bC@%AM`=#axckGr=h_o+QHT(X8?`_~>5
zo!a_)WS!xCly1t3?`V6fqJ4`|B91&a%Mm*8KELlsWiqF$({`p3dcWl#f9HeHfv;yd
zI%%i<?W_pt>q+Il#sghhgbsW?D03S<y4m6LJ_CR1<|L0L5&=4w?u1)KJGI>-J`m;T
z#r=%JzXR)RAI`LXl1KL^Q~7>WPqgVfEJ6o<U6sGU{l@dQP}gSHehnS=bFmRZ2mbwp
z_2_`Iq~eadkb`tRaHsZ)ZG+*7cQT(QXwW6{#xAu8*K-24pB2X=A1<1aH_gkX512N-
z&qM0K&kF|9)dwGXd(|MP2;q9*PJ(jDg~p}($_7RZmri)v-%Ug4!1p2ZkI7>JXEx@h
zzrO6x!emHc5IXSlBDW$$l)-;KoaIt^_SUHjb!b2*{f%rh&Cn?(Nuk^4Z5fD`2=!q5
z*~nUMD#fy*_0<LHnYD|eQ8+*+lsI#-bMVmM#HGX<AI72*44_jy8FEG0(pvG`d{@i)
zLrYUMp!4}O+IJzbYsYflNRPSHk%dqP)(1`coI$j5)4JuNu;fW^{nt1^$3ys7{1t6!
zD!;#G33q1}E?^Kk@O}8x^CnN}ZhF+GVuRs?i_a|h5jyaFxV=&)AZVXDc4<wg_ojb$
z&r&T|pS8=hGn<QVBI<8*(x(RPkrx3vJr-}dcTHv9emR>fQn6UtZjaD`KOb5%&j!4C
zoXS@)Av>HW{xMh;p#y(iAl{A+&`m!GS{Bmsvdv<YM<aCL*TdgTOxip>8#Gs5jz%Bo
z8a_el!0#6kfw3}w<nfQp7?sz|opUa)zeRSu;LeK5mxAULl+5gCFXqsPHM|L-1HZ2F
z_MF=&YZEnruB+t;9cI}5BFHYZX{*LLk-4+zFRCp;2WcPp{j2@`M~*z!el~syManK;
zk-K^bj~D#!F!(vTnK-7(7(mx~ZG;XTY_1PU8`=*uJgzwKt%c=w%ALg`bm03ieUF1E
zZt#sq7LnxQ1OZcw^t^x{_n%C5oZf0@?p*oEqI)F!?TIYH^}w$`dDk1W`u69R$QQRa
zzYESBCqn4J`y77TnYiin%%0cmG4WEAHM=T82fh!z4RSKHx~7Pr`>7~GhZc6cl)vm)
zXL%;$=MTrmU%kP8N7@;Fz8|^A^hhWBHq0_Lr3d?4Ga+^0$9<@^<CUzw&{)!)<YPNG
zVk)!|&INb+dev7eG_pm?Wl@LcCG~Ro5jya>?Cb|eVi;FAq&Z$~1plzzN9w@W6J;C8
zX_)$s4tj1uAzTl9ANE<Z4@Zm)=U3IZt(fb5eba;R`UC&I=$%-zc`a)31#CI(obc+k
zXSE0&`1dM@?iuoV)i3!bYJJ@NJL4jX^t^zdr`Kzgg1^kooQM&c9{!T(o{n@bc%P8R
zUzjXveCDgN`i8A`Vgk|-&ILd2Uo{>-Tq@8E@4o+*kowN22&n_VFQ5HG;Ht62`yAf9
z{Pnq^29+Da^}wH7te&M@7pJ@(Q?n6RIWl-DM--t0??d3q4>d-4Z{cpObIP`Ho!+fM
zc0Yx$=jx?^ZA!Th9baFV|4|lfGOh)5BwsK*5pcXk8@W>G8~okJ#|O~K_AxSxpZ;wA
z-n#W-p2+T$ETCi4{hs||Aj(zN_snx?;WtCOZ@~I|+1$(ccnW1<Sx7ss8$iNS3+Uh#
zs%4Ll&sfQ_{PiW*PTTSUbnNnyy+lP6IAew^CHzA)iDUttZ!xo^l=p<ibS!K%wIl9|
z?N)>JspX?rtj?ZnWzZjH7tzUass(f=J8Xs41btGpKk=5?VSmi{06J9(<QF2)RBm76
zjT^l~zYfX*I>hv!eHnO+XLDzU-V19v)9hA(^|8>D>yaS4AJ#XuV5^ZsmR5_<fnQhq
zBkT!>w1zvGS)C0R+$ZI*2p#zOZhFbb>p0h`Pr_DaPF44dUupw7(~sLW!=7erkGowk
zRWg~ILjgLtlw4l=rA7RmOH|>_exc0xO0dqNr;VRR;D0AJF&3cSEc`UW0y>Y#>s?sO
zoe~w}%P3?LW*f8to#JPDTdNmTKFe)aD2!YlPelPb*jRj*q~9~$xb8OUi>7kC_zGlw
z;P)>j%-}7F%DZPI7Cud}zp1;119W&cUQ)gixNyP3frnyojK9VQp#$HC#>3wD$En(~
zAF16>{1s6elLd6jxVtv=&RMY=G7&2X=%Q<O%aQeguV-w_|5y$mO7kYYB8|?sb@Ez3
zM@Pct!{J!;hRBeZnWX(}fe)bbE+ieJ_n}OJm%%9Hw^{O}ETEICQpPZyy+xy$`Z#gW
z&0&4F46Kin@5dEIvb@-{Ef#n5Wv>a>0y?MJV&}hY9zPoII3~xitkmZN=s1fzk|~gB
zekx^mt+ZME9wrOu+?H<rnPW)J%Hu0p$@t}0;BF~cpD)4vW@}j7fliO7owMAf<F$a!
zx$_q_YE{0JHQ4-&4osh(^8s{T)ju!nI%f2SBI^6tF8jn+SwQD?KP#W_DeimwMG6ax
z>?P^Dufh6!{2_IJGCuI?+m#$&W#v;bwSbP0z=O~e%+)h9RT|e1=J~yS03EIOD^`jw
zN)bCBF8T%>e%+G=bgWxz=RcgQf9~j(`>W%sC;4s(SRa~@LEjKNhfFu64;z>rn@_cX
z4jqrm6C&BuswXdAd$?I&J?#VN1k>6S_uZsNCDQj;7yF4U$O1ayZ#uqT8xe2O@OYis
z=^N3$`wFZN(<rsBs_Xe&hJJ_7N?6=rEuf=otMH)vWl}poh09t}IzPb&&@rA5_cx3Z
zO`~-ZvbxYno*)b8m=b5DO2>|_rUtr~J(Hupw)+yS&uRZnvwrhuZljAG=g*x!(5?k^
zs7_y0yO5<UX}D2+gd67(_5pOhu!Y?|YopnneNuSb-P}S-7SIv5JvdTxy7zIZnCa41
zV7=FFF<766m6uYpOPr41Y<?Ik^{mLQ7SwT>RvfSBPmw-R*c}z%^}`3y8GS6Ub;b-O
zV^_91n8I`?QWl{De_bHdQuVN%Mquz}{Si;*!Y(}up#y*ZQ9k>7r^Y8UhhLRl;L5@&
z5_}O@=gvr{gtG?6GS+q0j2il#Bd~zZ|FQShaanC$yD*KUQc@xzf`B010!kxDr-0HS
zDM$%ONJxWpcT0D7BM6exA&r87BK1AzcbMNfzjY1=w%fg*{k*UHpX(lVjWNfXYp%KG
zedFFHGD;l_-r(=W;lh!8&kHN|lRWXo!O}SVZQYVjC=XQ^YjZCBBoAK#fv-5V`M56O
z`0i!7q=b%)pX(298kd<7_qzx7V!=k<>Tg55f09R&@T=r3R(Z|Th9#lri%V-_7vzDS
zBVk(|z>(*^u>t2%S1!l{eZL@L?)Tv!oj6>$p})CghN-rk{&W3_AyXWySF)<k9Vtju
z3R8WN`I9{No8ujp+*ijN)UzpV0&|NDFUSKO7lpi+6t*QhA2??dxF8R-&jqPBA0)om
ztITqCgzdn(WpwF+Jka};mLbcOA#juP0P9Dr_bbxrj<lca^L*z`+PL&gpAWNCdnU$(
zlHNbbliT3a<H;Rdu-ZCRuw5nJD|SI1XrD9uku1Xf-=+p#(>A_(%=VS+f;`avj5%Lb
z#TP4)e*X9+_TUtS^-Su|^~a*;D+iUPP(Zll2Ws9;vW3J8@<7j@hZayf(e)Mr2HCZ+
zZOv2%FUkWQSK|7_gEoaEJPK#@AG>id!%r?)50r;rL?OR#C~er=B=19qZ;SxhPx7R<
z46~qo-fRWu#xp5D*Jq`JY5W-}^VXcwuA4kX*D(@*lE>fQHJQjFQuVT7I+|z4d*>%V
z$rEoFU|W)OlFU+)@HVXI2`1T3^61Ss5z3Yoi_4m_%^*)58qOsDTz_sM79kZq=oHO8
zvhRycQ5sA9Ngm1UmihrDA(~D##Dv%_6TT-u$zugeHYt0gWmy<qEsUDy8AbM!JntR)
zsbbbBDTyQNF>B*ud1sP-u0PJ<R5pyS@C=An#nh?gqJ0uC$b$;`{?uzs9PYXMfLh*Q
z_G<Mswo>K=d7$@K2oa3hiMvb;yiXyj0(`ie;ZO1;d6zajcnd^5+J!GBC;hy2>w-Mc
z{h=N0oz|X}CaRaO=G2n}Lejq{{#>8U0xAnOC&#G4_d69A<bi%)d236nB;#dM<|mqu
zF6uKB-xDv$1MPD<=i=-KVHO6yabJxd`C7jx7vzCHmk9;TYjfKwZFceD?qzZJ*x&j|
z9#G#|2$^nwT7>2SgkXHY4)g%e(*rv|5O*G)<qz}#&*Opa3!w6O@qf4dqT~9z>-wGV
ze|F&a_4z#${)!I#s(A(0Yk=p~`m6Gum*+hDzpIY_Zh6nU4!`aHtPX(r3Gkm)-Jh@K
zzv{UDd}n?${7eTf`rP{&?%y&0ybfIZ#U)*I{y^U&p)#~A=(z>d{zv7D@?F&Ly!yd9
z4Mk8l^zRVB@7$s1N5KC){Mk4tFZBEz*ugl!xB&wDe+q(e0EE^J{=NteV)#}4h0y*M
ze^Cc6x(@xKbbmR`S@ZKRPyCA$fWMD}jt9s9&r5qzzw>zhUG{%U{b$`LV0}Y}H0Z3l
z!E*u^;(yWSCnW5*_`3stYX`u*1_<s8AfJUlTO_!@0D}D=KqxQJgY^^aN5H-dAT$oh
zAPykVUlgI^2XR0TWPm__9s>Wr8o~Mm5brc0Ku{;B1F8ph@OQ^R1_<H+Lch-jdVpYE
z1PJu!A;@<Yg86hF&#$(FdVV$Ue|J96SAgL90{pA`1M&fW=(=&<{04DnA(S8Lcb*;U
z|L>APodBVAfOY$<^%?yCeLz0}4?rm2ze@(sLy#Z*dl}F=NlqR9=(+}Y&qHWF;D44L
z*v~@{4-o1P^Z=puKPrR!7vLX_hx$X$i@<yX2=)KFW$+#W_AP&Re$a=D_WPoKU>txS
z$iEuF^@ZMte|6ro#&OpD4eEp5Cuh}v7XMj#zz?;9e?J477wQM(vv`30qWDMq53TQ_
zbpSuGe+BjZ>icQrbU*+z&KMxc=|C7xZxm`!5Ckb9G7v++hf@Ui8{4U@2C;LV4s_sD
z|L_zmPZ69u_?^~u{Zzkr+PIgedVqqb2?4^M%HX^gy3aqQyD&(edV=c>-Y391XmM%>
z<EB5AX-*N;aVo-G^!ndF4FLG7=Le|gzbc+F-T&i;`(I@o|MbTH?(<)Jg}{0V%>v%5
z0D|iP)=7ZSeG1Tnbs1`h%D@lg2m2Tx|93&q2Y~-w#(mLog7^1}`u|x!=sdmXyae~j
zS^59FUElNi0qxTt^@qm)Q5kwYpz<H(JIf!;r@xB-th_)E@`Cjl)C24n#lP$NfPMQ#
z>-wX9pbzK8fxZDhs0{Q_gz`h<pfWW6EE(_uJj?H*dgwd=bpZrCP#JoCKs^9K+<z4W
z<3DSB;QSt(+d{_;o?qbn7Ha>qGWjV1z(30ejR)fg`$4GvxBR;UzdP{1I&juH@xMHN
zfBH}C09XhA6Knt9YyP{&@pt9<-^cd*^S{3X;JO3+qZNTTDE?6%s6UkNEEyVimJH(0
zvj5iqvpWFxv*3Fi;tQ4w{l4kEFtSqzFkb+k7YFQokN}7X1ME;ehzAJHv7qm7z<wSA
zet_rs|JC-h>Hxp{`BnMB_rlP8V4nxx??7JQ56ut!pn4!f-^YOr%?td`LvX!;-&yDV
z!2X|t;P2`{zd?Th{=3Ej%@3|OR1fNd>Y+051LFiT@B{M?=)w5|umk;h__O{X4%Bg$
z4Aq}k&!4q}-zxwfkRQkZ&(Z_?MG^2o@uKlR>j%vT<g@so^9cBXIDkO^SL0dh<XL&a
za~IgpThGW(9RY&hfdB+NP&?QU06SC$deBdRKp%X1Lu8zy+-YNRPLcA|5!h)?_27IE
z)N@u|kmrx$X`25d>@5BN;rI_#fPVc$%llo{?+*O#z<+QD!0%tr8UpzK2WkiF(pl>(
z*xy6rE-L@o?_<x)k8xTE$OC@23HE#7`HOk#2OTG{6Q0_kGT;Yx@c(%Pejp#<1^a1G
zH_(HAf%hE{4@L0a0C>PS01weA5p<sc#t-}eFOUI({S2@J1a<;QpMV`8*hheVf^h*m
z=m*e)`YBEoz>gG?2jmBKu+M<T0Xr0dKgbLC&O+b^co<I=&^`h`a6JGY7#D~K2<#vZ
zAh3fv!F4{%AIv)t54|ox4-mQ!BL{|4gxbNm5^#f_D}mo1gX;<E1PJ2(EJELdpnTwZ
zfPMq}S?5E*ANWBL+<)i!fjDp<gZv;K*Z~4NbR7nI;0F-oKd+zA>jL7zd^#^4YKO{z
z59q;of&MH6^`CVeKpfx&@<kEwpXCp=L+b$R+*$E|m;S8r1N~X^<GlJnJk$@WhsscY
zs0{iFjf2Y2xSzG3bw7bRK%SrN6Nrb_2bF=}pT)Dr1LXzz&l?wXUPF2QT{84}0><<2
zs^`4C=hb(f{XG8j?C0^HXFresqU+s7{nSqr%AS|_Puf8}(D4hN@{&XN4^I~cpoi88
ztrz%#`3myro$`Wxw9Kgt5Tph7A3&f7&v}4A4@KQm1=!~Re(?N;`u~>y-yMKH7ogYW
z{~i6mtbhmL|FZnCPhdWQsGqF|#Q$9wf5Al1`w1#vkmje|!1V!m7SVb3v*P}&9{Rio
z>kYIXFfV{Vm^aYpKZpYe>I42~$v}S=LgUZ!gXRT(&^m!0ieP+Tyihyf`Pq8Tst@F$
zI{g6Z0Q%qffA4_ysTw?oSx)7Pz6bu_S$~}toHGIZb<BS)(?#d^Ut7h09d@u^0{CY~
zb{@}p_CK2+#9uVeMg0KpSqME>{5?<4>ePRR{;YWc-gkcWC_uier^IJHXMrBzudd@P
zK9CRWKL7%MsC=Ft*#GGWy^qh6&l?Ze4*)-?4D<kj9hw)||1Jdc^Spd#&4cse{!{JX
z`uwNXe_q|tc?XrD@!<PDs2@~@#sT@Fe!w4!e>NV<_wSOS>+Qd*j<fQD_sz5H|JCmc
zaK3rg_|MXV`H6Lg!&&Pm&|kE#(ETVh-4&?fR0j0{^F_xAjRW%oAm9V@8puD36c-GH
z)^%PO_&v{g=OO3uoMi{U4*=KmtUN$}Uj4xDtbAw1L-pXgfV!aev-p7?)BzCa&pYn`
z`wHkh0r3F;XgwE=yC^TX??9aZL7rQuAE0_*2YAtZzz^gF*9GuE@sG~ii=O*{c>#W3
z1I-I$P%n_r^9O#=IIwO(^}rt>8TfDxg5MXN<M#iX&+|X8E<gn4J(v&RcUiy=#f$P@
z)DOxJWN3e(eCN$Gzypl~`tuOn?;su^hy%aFgX)1DAb1Z42=rp7AHci?;{gc#&O=b=
zS$@C{@&E+>XFcD69mE3}is#wEIt%6(v|nfazUhzVIj;`r_p}$?FF@<KsC-^M=h@F&
zm(Ghn&rWg9KtMdWegHujw4Xo^MZg2q0~y%CyZ{L7=dJ(e#Z#XWLFYZ-2YA-}gw_N6
z&qGkxS$^R6#OLvY--({Z1N7(RyQtqqc|bn_0)DV>1oByUUY<W|KP&H_)kA+53;3Yx
zC{zZ1(C01CUlhSSh5DbRhx+|08T8?-`FoZg<Ok0=fIxp10zS}J=z0X=pnOmn`2D9N
z*hd3oJsl7f!8zA|`gs4U`oX+{@}H%L`u(g7)=hwC@qqaY@GQUI`rjS+D>`u2eQ=ik
zuc+ZS=kE^u?!cex0Q5Z@$miY1+^1>5z7@#-RAfJ`_oB#l>i_RX=)Mgq|GBIG_eDeB
zLx2oLuz!c@|GrB9XC{#USLcQDLginb?>FB+qXXbN0|Zq88H(WlQ*_aD9>Djj5Yz+Z
z19~VjpE~|s@0B1w=+BMQ`~X26;QJ@&I4&xKa|Nc;0Ps8j?_CZTB|7zk`tSU~_<xE!
zIM0KAe*x+P*9XYI3c<bvAUF>P*W=IT0q55M!F>pofgYL<%nzs@D!ZR507Cl+<{gNG
z%0LegoEP8%#VJC0q2CVzSsW4v6@edA5AF+~hvwG<hF^rx>kO6uXc}-o0v>Svz`sWa
z9UtHa^Dq2V0pze#*#bD8gCGv-2J`@-b|8cOH;~Ul=(#zxK41rZpg$!7-}};>MSPAP
zybqk?_S^is1HU`)y92*F@Vf)QJMg;$zdP^;I{<w@IWHXS^8lXbe^EOJWW(xy(ZGMW
zAM`y6ypI7rc<%u+cwd6PS81P)GvXALPcH!Y_ewPWWFJ5scTahK_50VKEDr{}X8<0^
zbOGvr8$#b#&U?QC=TD$uwbKvaIs^T$!t?6+Re8?i@gz+~v>P8%mbDsZM6Wx#Avp&V
zD4^9#qT^Row%%&s)~@dTX3VXzK4JdVRf&N}fsv2!*JN>>68IkYkm<avAiS?^Z@l9)
zaD0!nZofsA$CZdF%qKVqiJ3yZ<!M73^DA;|^|@zHl9tx;>z1D@TK!O{uYBx%?*n;9
z3b%m3EtiF2Hpbo8l#GEW0UxK?jGl5C<>EHhk6<x+nUYsFpM2?qXRp|OVd^GxJB17}
z{|4*paLEZ*UDgjXnD;ha)5;MQQY?E~V*7`>Nbj5RmD<t6smMRE;!RekeRGK@HEO2L
zu)B5Y6*)>^wJgCvyp&C|RMZ<{IfixKUF2NeEx*?@5tj7*Wr$czm6?Se44Lc>$EK;v
zao&SG!y=DXQ@LLESZ3n0(skx?-T4vt4(F(9=L>z~5APJ1zGV6so;bspgs>bkgo*d@
z-QPZa*I&_o`3|9m$DJ2twLq|x$-NZ!jYbdOD|em@0ojdsI=*>2%<4cbOO<9)j|Bg&
zZWI;t)mSW3i{R^y<GT;$R_Y~pR!1@L<jF@T`mRi0quT6bw6yXRpJ%{Wp-Q@AphPKr
zGqPxZ%<m?CLu*st2fH*E+hmt-YOY1tIqKY~!9}AZ(Pb45u5@0w#sZh#|1dMGV!{o1
z&VJisQ&mQQ?Vd^Lw*nfC1%K5Er7B)Z4>2k<VV|sz;?#+Kl4=9C;xzWt0%fepcdTdZ
zOdcrkkC2UIzJd!7?RET=Y+)rg#z9@X!N(DoF;wumnz>F%@Ei7*;&IJyc10S|@*Av|
z^~Pe3RohP}?R$#pomqNmS5<E5blIoj)^JPGzxWis<CkV8Y!*Em5f>9M&FvdtPgdJu
z7`GJ=qofuRLtXm#$Pa7kqc`(Qvt#@z3>F$X#_}9D+wjj-l<!97?#T9}DXcWZc4OI%
zm&R(?CW~G1>^n}8Z4B&o<YMCK?9}hsT%WM;P9~=%E1?>DT<<1ploajopt93WA1?p1
z;PZd|$MSBl`N#1+jhh<_TlRKaACH#uT?Zxj;JcNl=I&{*lRPch|6tgv$!aSaKTnHC
z{gQL#xp+5|hA~fV!ZEAG5ba)7A;<P%DgH|hBSrNwryoC#HYXD7x*pq&dDIW&<Q^N0
zZ1j4@+0Tu3D`wWjqmtmgt0A*@kXi62_ID<D5o69es=9{RtYtGcixe^PZbd?A12t}`
zg}5zVIY-R4!246_qZJID5oJk2BC&<G*QAmh-wI;y9LMyTwm&>+EG8{Z7+dOk@jPYp
z@`p`*44&GLy<XdMGqg5g<+TI4<t@!htoxt7@LI=eW;=Wim}6uaxZxl9IqKVhCDHUi
z^|3<UwrIwvp-lAKEc{WO&w6aVb){>%kDE4;@wcpBw64$n*q)yLZ0noQ7r-`--Z8A3
zw7#|zvNQNF5f<edhN(b?(Ewp@bAt}?*m0Fp*ijE(v5=3x8W+nEOwpj*x<$eJJhjLi
zn}<(HM@)3C>ic;FmFa5@b90p*&S*OnGnuOgmE0vRHdsRNN(e@ddaCnj^p=q=iDd9f
zz_3onj_F?Sb=6|pEROHucVlSsn#g3S)2#7Pebh~15Sq~<FWFLX*-EBi;UXxSEqn1}
zb2qWf5cIfQvnk1E`qVvsu>IjFr>CF&eVw9-C9Sq-9yZP`DaJ><ZYB9NRP9?gap?p~
zW_Y(yC+n#nVDSm{V5cFIN@lM}+)&Xfm?9&+YyZ#=zT0!)InLk*^qy&bi;@h&g)I78
zol8%+no>k~qEn)HN=xWnHye9uU2;o3TED}Q3K~6gk3}#n`XrD-k7(!IjOKZT^gfbV
zNz@gziWG`SQ|hL{*xdWxWc+cGm#%R>xIK{_{N60wE#rntb6Zdfs$oft$^w<9f58A5
z7BA_nF<Ybjy<tX=!&||m@a*G(*pmEFNxqezse*Fw;;|%`4W;QEk=!ECo;IQ@bo!T-
zv^8&XeG$yvv2QmZd;e^Kq;IqjWzUZ9iwetDa;@Xs>(IUXU93{QAJfYhY(I<oW`0|4
z>#|+q=<W^UfsMJ-usS8rO(NhmqLLBn;DTK}Mvp}&&Q-l3N0}ZI;V2kJC*ReM$Ii-;
zbm(-wPJlhnb*V|?jhszhVSC8<>t;oS{Yuy1yA^1+V%QEGbxp^ftTa<y*Vsjk`W_&q
zMf{rjj)3?iTw|-cgnWltVUPKBTI)~s9tk~riLfxHF1-hMDX+?&AyYBRKXP%Pwf!Q`
z<R>!Tl~CZPRnyPR|GmXwu5t}oiB1tia=iC0dheC4k{<XVc!Eg`)Q>kFr)RGSi1Q{r
z?1_Vs(D&|+3||iInSR1ZJklH5amN}iQ?o}-uD;P)Urk4j=&*OSNUpO)XL8}Q%2PHE
zlj^E{I9~kYeRNdfGD|1UZ<nNEX5ya<_ew7nGs!Ws^f}AS6!cC?Sd?U;?7e#Ch3QJo
ziWu|g1)iO4(LQaM8wYAMUq!xckQ>KA%#6O?kWTVE>_o1~Mp*wl4J#y@O_h81h+`fs
z3RRQ$B33wcqG77t5uj@HVG&c1gR?zQDZIzy6NHJk)`GK07k=xtgd?J&aBlIv&<{jG
z+Hu24ulT;-52su`hVNDszf?k$=v|m4{ko(f%qMB=p?JaChZ>hGUem2^d8g+$bEMxs
z(0%n~6~Qg+Iekco-;12U(10Fp*Ma+L<~1uZa&yR!@;siPvZLAEOeuMK3!PhcJ9nHp
z@d@l3$z5)5?0e7j^k}5LNAW%<>Rr|sm?&XEb;sb<+nxWirdNLSy|$1lroJbOtiAd2
zn!LQr*dYv$F<u8nw==w)b1N0*F6SqKFG{AlGDNWY%_W8R#f2hY8GUpQ5%7GnScZHv
znUOSI3hsWg(-dsQbjpXe$HXt@&G=zsL>?1gbMo?+A6s6F#aBow&469|;%c-qiID4F
zpKND%sXOv{U-x>BURLmGk@zA}Je8!zm$U@+Ee7`wJXTLghM0-oUXK}`ZFr5Mboo`-
z+Hv<24Tai`x;sKwv>oo|VO8s*#cQu+uPPo+MiW`2l{2x*kFa%+JSSkSjUn18VRug-
z&d1Sbx?g9t_z)%NBWm!51>&cb$u7ZSX3h)=_SHwhIovVZ*<XS-Rpc_rSWs1D)OwF`
z-1kO(Ia-MP*Vg;)U3t4B+uG}4Dr(-*v0llBYi5*c9In3Sm_)B9CGY9W&>i^gnO=pa
zv5MhUt46e8<^yB4NQ+t*z0FxWf4{-yo*}W#+nyrEEssMYSPdjwM4m{6tTlE9`S<yn
z;1d$%F_DgJ-P6R$VXC6)Nch)EvAue!z_eN9#;2{<c!88Lk@f;OkJjir?4(v_!x%PL
zHF5azw^OcB>Erl~B`x02VSh_LW-u5eVuBhwPs7!yHOGedY*f}tTx7j8KzLc}({M%Y
zc4gT0Sq|41t#BLt6k%FlpWbRhO)KiV(^Rpw2(Rcd^(oBKAxBF<-ya|21M$SCX|@W<
z+^Hb9QWG3mPZK3U#X|c~q5{IJs?}GsUk{@vD%Nq)G_x(ua4W(rYkmIcMx|l}qcpae
z-P4&2H)KW)dnqrUTNEu15y@nlh!yscciUVip0f;EVM*6}Z^W5svB!il6^LSqVb@-U
zXrc85Y{;w|&fIs-G}=(ZDY~*M9~zq%!sKg=Qd;uvy|=JHCf*V&PWh!7rDqC~BBu5>
z#s@{B&1DD@$041)Ev7Vt$<zjAktmxA7@HC`jGa+It(S^IMgsI~LQr+p;E~3(`|Faf
z+Pu~+DH?u&;u7TGF6b#c^s4YXJzFR$oxSab0*;_ZXiZxFvyMx7#uRpkBy7%fE|1No
zyIaf=zucHwiGWofK`8iglg;fZ8Oc=%CY*M*epYU7+*|YC0>1DldTS8i|4UhHn~0T6
zIvmQipZV?ZzGcpddtjc7e^i6hu+~C_{y?lFY8%E=%)@+4I)|IZY}@?Y4!7J!mthmH
z{%b#@@zG|S`-;X=pfLmN^-8K#N-6mPcBd_7vIdk<A$F97waaDXWdcM`(GCZ~(n}Yj
zY7JO9T#xKdoNY<V+;e7TjYbcb4)@2(yBmjd3VMB}z21gstZX_Lb;Z8D`Yv+pA;I<x
zKaT^$cl~LvF0ZF_UdVYIAL->DT%}P=dCYXsjInggT@uBjGjV-uvgiQu#W<SgWZ|Os
zRu%DRe6jAEBRHR>ZaQj7(rJ2`^7)(Ja#W^mx^ru-$rpK4Fy2iKGZ?s%FxOe%rQWeW
z?3iATk}!W{OO)R{PEn9!{*+(WzrS4YB+S0?26^=E+oht`h4NyRVwIKMB!0gHi3IcK
z>t8u&RY!VsCP=0WNs!)9CA^L3K|`BlY17m}UWD7lv#n*kSEoIayr_0eW$)rZ(`nPG
z$z(Ycn}2<DNP5rC)JCoEgwHIZK7PGxbSam8uhzD$St9VD`@5_0bWDL%IrHQZMX^_?
zFUu#zcC=|7CLCfEoNlQ)h4t{mC1ajrmSa@|FBIap2GKmB8QlfrudjPMcc~sBghXou
zk{R*%wsJ+PR86JE%RK2QFSHAYs|Z^aJTy4`swM8*FY~%~BSBiS-{<PazT?aRU08fu
zx1vtD)H1j4=0`Kv8mEVkYq9EoIFvrAyz_WKlXdvSqPpvGac+Llcd7i!de2hXq3H$M
z@l<|c+e}yOmSOu&Ddtb5)1oV?yY%mjmwoYK8eBXwWiamM>r#de$g0veU_SWQib{XD
zMMtZNOxYH3lOo2NTzkC_+xya8CnkiCqNx?0kpd5rM2?XV7CNo4>jS(8ykH8mQDVHF
z@@;3BF?uCdB4!@a2j8+tXXKtHx3(6Rn`ecw{J~;t*<6XtVISb8ZT*HEPKJHGt*r71
z!ahZdf4K96UTe~GxTCSzkxO?S)xUp<axv?r#Eo&gR&CWbQNKWyftexUNh)`T#VhSn
zyOn|u*Mg21&4++RL`G4XxZOon7m1H=8+om9E-!p>$7yQF6}Weu#2kr-5fer}z*bAX
zOn#JLibg1~N3={Eb6sO<%e0Bj3#H&*`99wEE@#aGJ2pOxg@_4kWu$cf^yRIJbsQ_k
zP;?1o`D~rW1U%yI28}8$m*pIUYu($1J?rWW{sm$(f_$Y6t~$s)ws^QS@TG9k^Vt|X
zbFA))U#HYk){*iUl89cr5zcmblMYFx;f5&f+`Rj6r1w?M?I52-&m5UcO2US=v_6WK
z)I0<mG`9L!@k*7XN44cAPuuA6s%3AgaB1pOYakOOyrAdkUF_|z>cV0`5yyCzOBZA-
zy(A$wXlC+Syz`y!E#FEuC-Rn8y^^o0t`a21ePF6(<+3facgSk?_no=j%37kw8DK_3
zLzIYXgwikRqmNl*X_h{H<)F(6q5A3lyM?ht<;;FY_nitSB;0QknXKwKJNn2Za@?yA
zrO}K`nyR|JYQ#?4Fg0*F0vpE&$(2Wtr8pe6Qaw_g-dlbDCKX||+W0!Q1Uhc9+VV<V
zuUc=#P~GkF0G}&xjpJ8#?62mx)S0^7m5qF(H7z3gWIM<_rNbcSj(&$NgP-H4QiM?+
zm&Y_|&Wp%u3Y!8uU8VLn>$$JgTX&~1hd(b-wdr_F<MX^hhmJ+@iAaGN6M}D-D_mn0
zRYMMjCW<4z?QPvHH6(jw;%(ND41v#Xi3XaZ=sTKNiPY_}Fb>kwIh5j^o6~KHqAT}W
z21=}N);ib;NS4y;uCKawE`O<U{PCkmowFvS!TssPcbXK1WGjDS{;@B?jaF|jOPBQ+
zBfabOz)+05giTg;PinW>wR)Jt&P1FbFa(ifbS!@)_>Jr=(re_vr5in$-rphX_IuC>
zNBE<nR?a3>C_9im?fv`E#t$Q2G^R|EjaH8YR;X!3QI;o?*<4KaRX(bi7g{NH`-BQr
zuu;GbS%qWGzJP7R87W4ztJCr6rY@CxI*m~xQr@qpMvRMfn<~Z8Z3<}yMVEPqo3Y7r
zCJH+S_LbC>iVJ!~HQea6J_^*#2|`1^g-AIaTY{KU&lo+2>N^7FTXt!Q<u9DreMc-x
zDjfsyjfT+Wlb;28eOREZKo2J6_Kvl>ebOM7D@dQ#<UB)2!DhuUI0C;)!(}BSz3<}X
zg1ag4{O-&l1@cF|A3t6%kswe?$T|~UYu^#$q43KVjb?Yr#Qu=NmllwhX~eRMWq|8Z
zg6%09E4y&14*iv=)0KzWi@50Z=no%-+?Sv~YAO|)A`dcJ!RHLIxJ4sFMARgN(a+p^
zg_>5F>?VR>f5;$ffLuS$@g8nLSNY2(?i^&Vd$m8z$qM~HM{Z8hs#sb3{NPy5_-bC(
z(Q!gNBpuX!#2<Ng7qdX_>9H{JOH+Q@h=y{<W4CyE<rN9-<JOYYp(OiZ4n=WySG9do
zg6>^(hG$33tlNrRDN`}%V{|j6CpI(A6(j#T_gS%xDbssf!Cw|3J6*2epK;6MgM@r^
z4y(E0kodh4A9rO@E35QMZ+P^RIF@&6%Y0)-N}@3uWB15?9$|6^biRu&B*2ro;%!7x
zVDpM_R{6wN?t|E4*`{{*$Q2`XA#%poeuz^3rEJ1I>+;6L?nir))&}X7;#j6Nf)B};
z&5~crbTV9%QHz0@%o~)3VUoW_*TkAa4u8)Gedo#T2rcw$TztyXgA_ZsX*zE4=`u61
zS>r3hJ@QBPwI8BnZ%NJ)&g8q^U?I>Kw(FqWz;TJ3?R-IH_Fhm2sYj1gmB*tKy@iqm
zTi3I*24;|xBq3681w)Uht47~UMl&^|Uaz39utX7gn+w&RTTL6O@==4Bd^bM-o1WJ0
z+o345vbGpi+V;hj%o7?rYC}_sat+l2Eo3W|k*+6luWCgxaAA+}-S5*I`ANXl5PWwq
z_LD<8M!O2L@gfX&=T2g;fkcpgLH$)mdz>M2gb$A~et2`WWwsm*!Ppv8NqZj9>F-E$
z?=C5`N?q}((4V=33d?^bW!l5Fof=&h<*;ccHiNoGxBpJV7Y281k7Kx6iZ>gYQLgnh
z7X5K}%47`#E-<fzX;BJV=t-};sjfD^<Q@~ndV<1zT-^5}-+R0(sgr!>Ghyt0sunHb
z%xtqx%V7}u%gbL6ALCHs?p!xM7<1`BcdU1Ll5fl0y*Te_&dR+&Ou)xBegl5WD}R(U
zos?$TiFE)!g@WaavM}ed6QN+kOAqPstX|pI$Ec*&1V7W}H57)K@QF0m!^Js&o-jOl
z3sW7KFNa!DPdIv4D^Ox#S~BQzqSy(>*Kd8?De&e3-(DZDUnA+**CU^f2tusk;-fZv
z<`tv^TlX&27yTLL!^b4g@KB#&syp8}=;roDMkLr@i9kc3N<_AhAtm^*wJl<*n~6-Y
z`uMFB>Mo4+XM-E0S7jPV7@6WO7aD3dqlS%o*{P2R8qf<K@vJ;9m!s(sO!c$cUNO@z
z$oF+Q%Jiyazcsr!nuPtW)HS7Ve;l1~=V?DLi!xiUg~Of12^(zd`uRrXKHY#_5{`%4
zIlQ`;YTYeu!!1IC>)dsaR!ogqX82J#gXaTnv4Tz*zx0%h-D*5>Y3SSc!6V!z6{w;Q
zsFAC93G+_XhG_)-NQ!*fOJ~b{gZ&45;liue+E;DdtMR%f!g|JM%n*-F4lq=@#XsxG
zEsQ7PO|UMq%@6H0J&#R6F>%#+bjf*qCT!GvYny)SNRWA<oNU`D!sEWPuhLdaLkId%
zA6$(DFE8E9@oVQA6gGx53;KkLr%XR6yrtnCw47$83wRRcZydJp^WLeoHNXFM>F|!+
z2hH*9>&^zqv+t(qA1UuGa%62-TNL%4kiJ;(`&b13KQ_seai&(|B3IforaRzXdquQ`
z|7(*uBDK!iOYDzs@CZdrh}&;cdio8F`>Tpa;?=eh5A}I@5svxkPaY`^<Xz&^oUWPp
z;%gE#IW-;k6654}jeFVPU(0-%daHaLDp$<zwKA3M@+T)^S1iM)z7X?S!rNZm?yvS4
zb^PR8U5}7hzGFPitdd)?Zd$MFF0ea1GPmg7z*X(^GS#kKc7{Rlc%8F+?lbjX$rGk&
zzS*q>9$#eqPTtoqj(0Jp534)s5*|N1-mf}#+FIeW$Pn+Exc01Jka2FzBD!bEq$_Sp
zG5U61D-OBzfPd8sVv&^vzDUk#xM@;;pA#9A>AhO&cchKCVm%&g$qYY!)qU(`QE8tR
zQP2FbcIVUFr^RL@z6Et5$AJ?fzrNPqWv$kz(RIdNm4YX{J#H-1_$QY5nMu!GiN5E@
zwiZ`i!WeCopI?ilPGda0T$Z!e?woTxTAnY5+<q4`00#e2*_XVzuRBHu9aOYa!bK{t
zoL@%W?rU-9wr*kH2&>bLNR)OY;M_DNs`WnDS34|_qMUCQDsoDtymVL~`rgJh(1vc(
zztt-yC16X2uCS1>)S2F&?rA60!h0NFRU#>tjBjh7hD{?q(YD17*uRgg^o9&I$0AaY
z6h^Vs-QL{ak0UwYG`M`dX~kB-5m!2<S#-Cuu(#ox^MO<p9EaZ5xC-I*Esk%Srk!7u
zb9zm}BnQIHcv0j<c1pGHl8K-nP@wGyW8Qkddo1bS9&pL;wtl!uKmZ2avy?fs>A5dh
zaM~>eqn6L!nW<34pOD#vn)sz4iG`}jZQfH2@VZ(*yTs_<6#0nw9=AX!LD5K>3T<n~
zAy;gE?rj7%f#lYrB@<f&p(*=^`pG+LBpZ{XxJsrqhFCUETkYd^*zc2s0=F3>7wrtU
zh^GwJ8T5L_FAcyZx5%__^(G+T+=-uJ_j+_>n(`X=M)pCo!#mRVH|F2FX%vYPr)2x$
za%8tqqdHS4OjKO;dVn?{UgXnVZF=-|tS7kwJB6Zs_p?EG(Z|r<<gD*~Hay|iuHG#B
zYFb9LF%a&df72jWXd6Y0i}n^<0_(B87@h19lJ4ZUb^^4V$;_~dIsxf8Zsd%I7}p-H
zw`5r+l;A8$@9oEA=UYVX4l_KRU(0opZW{kS&eCEg{-S$4o6XpPr(oDLXTxRJW-s6c
z&*ZZkevdGnj*-T`rq8|@?32pf2}y7vS0Xa28hyjs0nZmWN3GTvU%YaNM><8}<6E}>
zyd}X%_<-rrAgx_@@&Tb>%7D0#>HVN<@i=(Tgls}{lE(xY+!ur8)&gJjGkL6GgrSE}
zKkSyVn@uGOKz>+vcf~+Dga}3=6f;rs67#+Lq*qd1pP>;~l9E01P7msq<r2*HF}R$C
z9xl52@vE5AfDm>k9iupEy-R4Pgk}(TfX+QR!@RfGB$9UN#L&C5P?@j;yVzDHXht^r
zR3-1Y={Q%4S=P9z3lGi_39HIP%D4~Ms9#q!@-WZEOZS(!+qLr=gUl;xJoTAwr&PK`
z%#?0dw4{4DzA;a|5y`j!c6S<?ICjSU&|qHp;AdY8j0f)TX6E|GPv!LvF~xlpitA~?
zAiHujA%Hhzc0dE~V3k$E_|{sjdvafRuq>ExH<eODmMly-TXK=ej&3v6Gk({jl3H%X
zJW->Qj43xQ_e%5QZq$1rt+z*nifZobM&0fdE(oCPP^=LxbXa-o5`J@m`NsglCs;I(
z0p1?YWH}=lf4+U#1;)Vyg@D_noeC?fXkpCS456KgZ#RB?x?4U_vlJ`LBn>y2oQaka
zd~0|c#%E3$ML;WL2xU-&w#`+Wvm2YrQ&AXZX!|p*ld+iS+b71+gA-&vEa9tYRQf9j
ziY;_WE<WCAxRRFYkx24IHX$)(eowP~e|R7cq#dlfbm&l7dtW!Ba=S%Ah1|Koo8?Qq
zMp0Se%HZKUyUoeqxu#XA!hR>EQ&vXH`azb5(cQEU?d)N4SF)x|6Ac^MDOU&*eU$P$
z4VovK#~8EO(C|ba7aMEs-2Fl|SArs#6<AC?C3J;LkOuKROQ_uYn0Km~s@QjFXm5&#
zXio}ju;Sra7#-pw22s7kF^1dm$O)&kC{@E99NASKPCBgfpwq4-NEXx9bYToJfR!**
zLNp}dVLiaGo`o_0dLZ`_&zvilE4}PR`X2g~$Mj2*ykjEU^WvR>r6E)LcMY*W-bO?(
zTy2aint7on_>nX6dfQ&ysAbZ}1`)S3`op5iG7m}f5=oB?;p^P{f;wqvnCJod@XvxP
zmCaKu4v)+@``|ve)6Sa2=7$`f=%rLI<W&^DG(3pWHM9=1w_UsPK&QgJ%iLGRTVHXe
z3qE_8d{~-t+)I_vtq7-p^@%pA_J*HpTx1dZbDr1VFe>)8NOsA`yi{Jw*~wV#GZiO>
z6tfN^Dmq^>l&KAfWGi5MvA5S+=KL9xDKiQ_w={6sb1}qL1;09_yLC6icTq*<mFVom
z$$K6Csi$88$ih~KDW$U1u3g6~qN0)XNKucEPR+^}^2b*6c{qPN?Z?0^DN`DwSTQ9w
zBCn75-XgNJH*nfiC7x%=M*qOJR(a%Rte3sP!a_(Zj%9*8Y$@tVqW=8(_b(N?ANmyK
zpAq}3I6a?aQgEt8+?{uO5wWhd8#>*TY^W?XpTf$J#zsznB9ucxM4Bd#DCIJk=ST%-
zB+rABXiXFQ+Tu#KK1EU6O%_<uYKN#xsZxcKE(34n(&1L+sODLo=Lge7so{5o%Dm0d
zk;~jmV}e!ks``%5>%D_^{mVznW+Uc=Vj5eAee+kfC)dQ^XDYBBQl#YN!aZGfR#-2@
zKDg0l>%!JUrQ?KI(!u!h&1B!@_?}Ucm-$Zv*^IoN%iskcBFNe{+<1X)rFmc8<;9m5
z(#SQpvK00$ZPOI+o7rWO)2WQdJ=qA63eDY>ALX%3BOw!Oi|&?2nKszI=-#L((#D7_
z9I@zfzx^YEOOU_*NPJ?#5+BFOu!Zy8h`8UHt^Wc7gZcdvp8ce_wKx4ox>5GQDo*)R
z&yT;w)K`{gz&DnfEbupNrMpGg<F`)F?bX$1<6KHLc#Pwpe0Q4CBg+CNdXw!v>vH~x
zFoIFqNN4h9^oTILdC-XXhYEa6>e%EB4Sb2T3Z{3-n`I-ygQ<m@bn+W3L~oLe$H((Y
z)+!=P+|f8S5);t4#S(qdd0F~#GvD(z&scEV?r180-n@aX=J%z4?|GSrV|8@7->@@t
zczAboP_6RP)oqfYHFoArI=e?JHf**2jzhH5N^LmL>)%$i#=H1ic<omBJ5uMFGT)DK
zYE8?n7kjNZo0~uP7U^vztxsBNm_&WgxYnmImlE}Zj|4+0wXla44_yu5YOdXef5-hK
z*3Aqp{rXEr5$ZVa0^hE13z{V=zxS@9G(A|WD+I=U=|mNbqR4TLj1NXFZa3e~wU%qX
z79H<gx@VGYk7;G?@M4*p@qPxMpB6hYLLrR&BT{YAhq+W{&mN8<yylXdkwHP4!MS3g
z07JC4a)i`!ZOQZm>8n0E#*!KDy;AS~4(4SK?aP^Jl6d_VCD*T$H73QwuCxj1k>%~W
zKOGZ3gxe^w#{40)yV>yk{s(z}+xs74EUFWUG7Bs$O7Ya5&Ua_&T~{G~tV`8k8Y!y!
zsFcj#3}Kkrv=S@-6TbNy^4H2=A1D#$Ro;tMt`5&|wk{DKLpbucp=tVoV`-?S;q2v?
zKImbdnOXIC$Rj>?BTYkB_hg{b(bihDW`^Oh^P7VPQvB^k!EK*cWaVX75x$g=a!J7B
zthLH=E5H6q8gXw|>-cW^zka{b8}-yGnGx61;6xV7{X15T$>f%t`P+|oqAuN&hcBeG
z+y91^oBTFna)Z0wkEKJ1w@;7?LDLO+QtgMTR8@A4@j!_5eDGHZ%^&n8U8cHLS7lo7
ztEq;l6d4XH=J{{z<*^;SdBE7^oVrXi{psNHWuvbgyx-dghBF5CDhG_7D%rCI-*imc
z@e^UykDrJzJK{5&{V<u3zeYN1;nyASopm$Z=XJ;G;$xZuH~%8KkdEo69U=^JcW)HE
zVYF1LnwS_*ts+pYXj#6C<)akVAaUD}@+6>+$9On4(mb`ip#O%*E34V0tWlY1>()<)
zW8o|Mgb~Cm>A_u9mp<NL>S{zr99f<xKG63nU^|#f-)L8AZuBhl^Y9X!YfXNo#^?V*
zIBxJwMdd_gJZ;w770IzM&1julSO-xpe&2hl>-{^UipC`|6dhkiIkFOG3J$4%Poa$W
zap|n2(#(`f51oFDw0KkEtr&5bX0ES~>a_77y*{<<cm=v)qVIz-@z8#ewwv!IiKD7y
zZkp<HYYUeK6AlEeP`Jlhj|{e@Q#Az{>f(r-rr*t>s_-tUOwCQA@G)X}mTO5Vp4iK#
znKkG_sqWq=FC^A%7d03;%qdPe)Vao*G4;rlblDgE@(L@#;RyOZ(%RQ0)vPPobH#ew
z%2zlZuC|+VOmxvBZY$GKbK$r|1PBi;xHZJiGN7|fksH+#1nG0vU4CuViiEAKD@ve_
zby>?o817Xg#v2;4&0F$KUj|b3?{8yjp?lhPJR+-^7eho)$3e0`N;*uxjCMQTA<;#6
z2OiehF2IfaIx;80oTUgnxwD@ZnOJp#OjIcxbB<t_yFn99WL<4&AcKy1UD-ZOx8~!~
zh3|87L-?cB9_4Et2#-}A_u)!Z@+)1A5Mfm*iars3MflfO9^sG7Ka%0Pl)l7$jKfc5
zRHC<<Y-U>e_Kx>xJ0>a;DyPxO5e&62Q5u`>xI5P95)TI{W+G|MzH#}0Raj1SyVnZN
z@xIe*?A@*+k?n^<!3}b-&wStC7EI{Bg7vLMZ4O)Einhp;crk~fBE$_8y}JsqH|gKY
zkYr7Au-%WSaGV@s>j-0a+pl@!(`}f#f0bYWn=H~_thoZAg%izdeyV^u+>%&=x?xR*
zO2hW;CC?Ax>aZw1_mj}ok{&nHr0a1mqTY(62rIlQ`8pu1Q9(1hsJ~H>EnWYHn51AO
z%1t)I0Zf7q#Pf=!*1EWND~9}RbBhLarTM0tHX;_ajrmYJAAFdT+vcq0SS%1D>Mv&c
z5r{;vE{%jlA^p~&8rERbUoRg{9==UEc<f&%ae4RAnh3<KcgBjRFL&0h?8G-Y1(IU(
zt!)a<Ejb-&><hXj2RG4^DL#XBFT%N@Ta`yc(6Z**axE%3b%N6xrRvp9xV1um*8(b{
zC=b)^$s}YuvO?h=5s@zxsdseo#oR3MRZ!{_#%&aEbX5mXSA7>nFINg-7bCd|OroH=
za?z;U4daeKQM++~e|OBz5%rn$4wCGkLeGm5_?4&pmH{yaI)XMD?GJwt+%IM<s~SFR
zm3JKAc}OR{pG+k{x0ZY73kQFl%Wmd^BqD6a;2_SW&MbJ`n|fDfXt&_W@&!UjV%e=c
z*hENf#3ITBry#8zq0?PM%w4<VRnNyqK37its`QEL#*Y5pfze56?Mopeqs?p-eA>5^
z_$&S->$%GL+SAodJkczJl!Urg998@GEPn+0yeYzKB?*syQe_t~yMOsoL>x(89PHlz
z`00@PN1M3{?0<dLrfp(n|4Lnd`HlX-t9RDle8XWqD&`-V1iw1|5v)g6W+|@NX5T5{
zU0PngnoO(e*=rC{JVMH18MRwn{n>Zx&gW@!d3}TGj!&N{P9|P{J*iqOe<_{c-cuC9
zs#)0oD9y4jF3+CwP86p}rgN<`eoD&&mUlIVwoEI<Cx!d#yH9Z{iuYbod+n*5v@JDq
z7sFr2Vz6~=lyBM<<k#VqYzbf$c~)RSH^X$4R=+iLtwR>)C5!(nHc9)oLFIQXk9vl;
zPbhA{j$*yMfkE&(QjcOcrB_QOrAG3Vc2JC{W~Se#hi-PeCcCI_YWL?lr(?*931C9{
zWKnb*)Y+5=?%;|ocsNd8ZDwFBlO=2wNm0SS?ELA@Q3HN;^HHvx^q1lwqyft!PTtG9
zq<Eb+m0qwi4k4f6Q~F|C8D^F4a7fkQ-9{;Uq1?rbd*2z~ilNNt15HrQ!aD4*3JeEn
zmDt_KhsB4z%5yVz-FC!pi@&}nYAF@Tx#ifBJj&I@DhcQD!A_LEkoMdB4JHw;mbi%R
zOy<MO3r)<E9;7hX+AX1vl;Luy=Nkj#?P&8Ev~dL<@NQWP6vrxF({r<5(I@WmfV*p!
z*w#ttEi@*5MQ}3W@XqAWqNAY(Ze8R{PtrFht-6@IaO;stL=+Ly>n_1W4byM53+2&D
zt%`{qQkGiDIwB8>{1N+<VX*kW-imS0OM3QNjos7NE{WlofW1<CX)cgzV9+etvTFY}
z_M%^_+Ex~>JMx{~+9RR^Ldr_1xEK5ItrpxPt(;LM+rIcTOE15Y%^EfC@zzBj9`5el
ztT}n7JDN73>Cq{c4m<mzarZ%B{c@r$s@i@RZbP@uc34JJrTDyzMjm!Ar&R4^>DOEQ
zyjLRMgf{P)WrbH$NLAXdE{S%z1$(~Eb!dT=m~3;J$+u$?Fo^aPAF&)GjuKM7ca6kM
zG34WX+GR;u%d8h!&e_xcGf(R#%w%TvbZ$-L9Bv<SkXY2-vK;k#S{`YEs2sP=teJt6
zr=8lR7@A|isE3apKpmk9&$h0aI)V042-mw_{(EZTGc@yKI{$KUu1pwAz357!a&t|6
zZ7LXsA)ei@ii)}+9G4XKDT!a((Von{<|OGf3LGnJbyMMY!1~tjD|t_e=OMGQgRdQt
z(<IXT?XMi~2TPx0nZbX`s+Uk--u^_eS)}4xqw1w%QwU3(=_8)H#7$TvSb!$)bcZOu
zjP_wu5mu!YSE<djhCMp92Uxpy5gN0mnyPVDpRcwkJy@EmduJNWW^LA&iz2va+Zpal
z-z~WKy{GDaHxqUP?ItTF^H3P|x{PmdNb0T&^{qu_)aJ{)?s^+EtXGlkow4j>>JXWq
zR~CFw>+V|BZp`T}?|Y<iTcS<*c{)w6%BbIC$+lSjXJb?eikz$8s*SVW;&N_uIOv!#
zbWj%-<<45U#;3-<-#(T$O)`1oBL7Uy{C@v?!`p7L58#w*qsaQzWhsYj<2y`76lA%H
z8(HPu=+G6F3-**LrN6sr^5sZzyUv|Z`pmi~XnZ2>pbU6~-7fZQ!ZZTbGOsQ~?DnIg
z9{XdzCpTwWGlGpoEbhFS)cPF#ekYWjQe69(e8?RM-+gEz*ih08>8s<7EdmV;s%V@w
zL%-@qlW(l-#Vid9aUAP|Vhj(%LbBVfFB1pi;UziKMdVT|L~>`VUtZ46yk6x~)q&-U
zF;ko!tt34%-eq{JXO(F{&Qnz7cK79Bu}%|VV~)T{E~1xGG&(&LGh~jGrKQ~DjO{Fq
z6qsYUu%!?A*qID{f)?a<ErddZ6iAF;h6rKd)N~mwK4j8M&#q+@7r#$m^IXJhky0Th
z^QL#|f(P!3$h2E&jZCRy?`5Lkl2nD9Wpx6j5V^3P?{x2J2`gFH_nB^s${0v3=`!|)
zOQaOPd=O1FpDBn<IbS0ew!D6s&OXh0(gS--2zy)P3FG<=Hk_I_gM~)!8BqqJrQYwB
z3xsVHrUy32+35BKjVdujygUw*MiDC?3}v=&)^y6LCJpS5#&M_)9sR&zJ|xWZ;aD5T
zCH`nS^i{l?s<mzGWs9-F3qw!QJ&n@4LE%2m^YQJG33af6TCsO-!O5e+CQWO<@1;i&
zVrrIqqISu9As|)o<9z{Ks}f9g*UMYC#pFuDIE1zYlKZc=Txq?G?NKJ@af`ceYn6f4
zXryuRyA`vyJ0H4+Kc<G7t(Z~mjz#(-l+roah~dW7#-vzbqfrdAEc(WbJ73d@7P{c-
zeGEB<U>rxNgj34cTyLr0_9!%PAwW_=lJA4T@-rly8f6jS#W^Iz{94TIz2Ngq24OcB
zQ@e_skvu;69&232i^Wf2)}M(6oc8xnbVZ5dgOa2Zui=YnjN29()n9enU{0x~yoqNj
zjXLJ&A0TE@eu?RBNQ+@#tN?EQGP)6WHw;tF{Ehe4;jqcy-7^^D^<X%EXo&oHKSWnJ
zauO=QkIFZDzkR<jcBIvw^vJJ-i*~&A1?k5c{9dz_1>U^pq}E1zf+#YDEi>}Dnvd>E
z6TC0ur^1WdKrWH@EM+K(TlAVFMZ7!wFl>bg8{ImOtVA_nBmdoPLAiFt@t4a=4dU&3
z0m22-M9(!Xval1izhDhq33C%R@WSfEOcTk7BVi<gf5w5Mf{wqO`;?DlI`lbdf4puB
z^4*okAxO=zhg4YnVhEXEze%z3i(93Qz&;$7j=nlUctXWiFJ{d62FZ9p7uzdbJhqEZ
z<z|H82<DR26a`~V@~0q8S>pT=()>*OwdcEdZ0g!;#Xm%xs#`oeo(c}~qzH%z#+R=Z
z<3zj(eKOZ>hRNPw!z;R5{^3Vjx!A{Bne}PI25IySHnyA3)%u5G{3H|{QV}b6SX1JP
z^p=Euv%Ba*!s+YkS`^A}iw`O|Pz;(yD}6HJ#;+T)O^i%8^57>?pY}7)(Dg5S@V4Qp
zX!}PeMPH+FP6wTWs;?g&w%iEc(AioJ&s1}|QFg;6%vjI}C-83EyDQQQ`R|#?kJ~7e
z4&}YR`w8)?TyFbebf`~IvO)jti|TQy&IH;bhV?rpnMDo%MgA>!t`BM6uz8p5#y1{4
zvQ6&7)?6YTQ^&pD`lPLv+00f_pZV)RPV2CB6TOs9$k#RL=kDS%Lb&ZWo^E)-z-cH>
zD-S6S34GZwtZ^Xly{C;nO|Q*Ay?cldbH|7>^WpTXnkLP$U5wg&_GbqKNs*%0F}>Sw
zU?f#9M|sLO(x9|8y=P*si?y6aSPkM#pS^}NP3j+3V#Zuqzji{!e?q8r*Z#6B^+Q4F
zRH6P#E^<HWZ9e45CsH-Uwx5|aPS`y{O)-<n$nxm=4v`<1?UxC1l6X4Rnb08JrMjPR
zMV9sPK}`AZo|3FN2I20~M(dL+<eaO1MsN{z^7qDlbRHrwg|UqLC4O_a5NR3~!Ey2>
zj}9evzQUho+Ln~`lt}I!Z{*d$_tzwZi27}++bpyOm0%?M6Kxavc^*C@R+eG9j^*}j
zi!-fz!*CUof*-Z?Dp_Ip*o4@XDlIfx6@mQa<TSH=gp{f=lvzrPWY&pWHyvK`nd3(%
z1cnZxWLSM_bTZuyNI;G(4Jh%oe1NoA`Ev2_$I%aE#@cpId`nt+yz-9NmI7(Ng{amx
zTz0Q}Be5F$aCs&RXv*=`lHVs0ziLgBWNYxfyN6>!#rL%+#vjY1t5X&ud(sOdCe5v?
zc@49!_THC~#(;nV9{4X+_DWyMD{n+JBOkp!Jepvu*TQ)x8ef+jf9&qCTi`OH!h;@B
zil0Qz89^^-q14a((f{hWiND*ZdD7$_3AJQN&le$trpTuBCsqTkc<HWe8tMh+=1S|R
zol*l|DW)^x1;&F!T_v4`gw#8W!#Kz0tM=d+w9DQ_D`x8QJ)bmHkMM?PIB6kWymwhF
z_a(Kesdb4#?ny-JkIywKn<A#gGC~rWY;HHQ9t9UDZRMoaxu~|WQYEbgAkQn>QyR|I
z;^V{@SiJrK+se{JqxmZGiym@Q^YZ*&fA%|f!su0ei{$n1PbA+L{LpN3-(=xZc-b;Z
zOqIS(F5A{d=N{hji4~S&OF1iq_-N&RB^Rq7?I*d<u??{tjtz%nSl{%H*=UxqM5F0!
zr;S2_Zayc!ioI^gKl}N53IpT3@Vy>KpP@-+j^m~TUIi+%IK(Ydi(<vQh(Tp6r8TS)
z^!$ACXv|&De4mF*FdLKBuDT78wF-HqMMn6hFZU;Ai?I&x&vGeOY^FYAb)z$Aaa9#9
zpUqbef8ORk@i9PG$WslLQCG0t?#Q@Y9le@XNuRV(TltL<eS<v9+}#t>PYUJ+U21IN
zs%lFQx{6NJyNJp|=iBTbTnjH(is&0mnpF(0(Kl!w^<X0l>ofM9sZxl`W9mK>@o${8
z*B`?(!zuP(8XnZL>aJI?!Nf@OAzX|jj$&yl)elaI;{2%4>uyyFFIOMHF&;f|Ooku&
zpz|Zm;H1eNKNOoDOG{qw2VV@lwuA?cJ$t#0n%Qrgj{3=Q*e6_Hjc*WSSxl3-jMYg$
zrn`gBYVuk5e!fEUu;tEvy<>cUwD)_86l7h|HHEQYg(1ur28x){W$FoGih9r7vL`J4
zw7NSK@x|Pm)=A|e$$vC;-&~$abI2&+Bqb4eczLOrG=xrlOGJ+zVMah$$cMg1K0*JE
z4|!dfg;jFdYQ=mHpGW-%T+Gh)Lp%F7PP-+_u96zNsl-9!o_tO^EC~{b+w#7W;UV%=
zO=_}yH{1|w3GwnnJ@?}dI)>47N3MOi0e28e2`5V43YVM1W6@o@i=;*wS$NYhyP{TL
z&Y|nx<kzQx@0s7=CfXm#TH?-!9THf+s~JyuHpSvEzM&-|xx(^rl$nxZv1E^vB?JE5
z##d#_Cmh6=#L;4FGckkb#Gdw|q*mSjIOJu7Uz+WwXj`z?y6Xi$EW@sr#jE{&Jb&!q
z<OV|I&3>jW!mQr-@Ppe}uQ<YjG5o)W`*{s?m4C)7<%-U^V|5MV(dreSz$nkyns^n%
z>jIRH)AXZ3&nx7LR$qun6w$B697gSs1SDLskrl<`r%83gexuhmRPgxb@y2#==R@ua
za-?Dx@>XdFLQfJ0<7R>l!@G%-my(1~1R2P2hc%D&uC7jaSuIyDXylO-e>HyaA+g4M
zZB~2g)>TIrlk5Nyz1|uxm_|d6u%jb&x6d3a2<+XNLQClb@p3Pd>ZtBq$zp5H8EVam
zBhJ6M)%7V8M%f%mIUh}#pF`a$x-AsHfJjP^%biw{CNncdsqL{Ak%1T2j1aDdF}wfF
z5o51avjW<k>sKvoVmvpUV;}aic~{mt(z<hGpoRQMwhjCIb-J>sajWae>#z}IRxunb
z#Du6rX_U{ss@MmV=7h#~SZzC|6+0%WFh`GX_a86ky{#5&6kFGBJ_=G#_^_0|)Lhhe
zE%Pn+yCFxOEFveYOJ9B74W#jQDIPvo!_&O-afZCn`*WS)&drg5k|Ac)x8V&zE?uaX
z%%&J^M!2k=+Qh1VZ(Ao@L{&&7-HD=QHTw8Q*CuzTPgJE^=ta8^d%k^WTXoC3z^gpL
zCj$i!Zr@ch`7FX0e&d*-QR|4>kFl<(4KD-hxfVqj|1o@NO;J{U=dn^j!oyXOP~Q~9
zms_jhl^JiUw9M4j*!s1OYii%_Et9@iefz9*sd@lSsZ4q#*i|-m;}NW_L?to#H=Eq$
zUddX$9iyB1y~m`I<#L&xdT-F}##_}il;{3Gn!Y(ovge0)$F^<THg{~>wr$(yj&0kv
z?U^0z*fX!czxUoBeNK1X>ZEc%Nh&$HmCKE)`$Dj=xcH0&ig%+rrr3Ryn_fMSUvF$_
zjjeLJwnr)kWVx9f6pf*7IKHuQW}KhwGJgHE@ifKOcWN$H*WQu;=)aIJF#1QkS_xv;
z>GX_N&NFA0&Rs}dnXoSA6f_B#8zlZy?BAug)kz97A(;78f<2bUyhcHeJ+01zP&}yb
zohq-c6J<K*8BIR8JPHF<#7FluCnzrouXj-MKZ*@eKAYaZu%8IiMIwwi81+DR5{FeR
zS)_D|WjHD@@m5^O&(N>N=y(v@1Hll;-i^~JoVcqi{qN3_fg^@@k?!V$7Sj+L%(3tg
z1el!NB)|769(i$Jr%_+goeCs=;bV)x1({BLI;<xWUB%7^JvwLvp(5nJ7Nwk<>NLAD
z*@Az`tT0qOV-;5oDT;_7{P@JgEA}P|5o;sA@EWIUx`m_wi$wCn|DB$nQBMhv4<8~g
z^>WNdcX11OrH6fkPonkV#%*N`!7D@R#smFuD%rFLGm-0v*zYG(dlBb--tg%NNWsw4
zNnn*O+_BQH4ilSIzdX^!Gq&uXqN0%+%qu6cJcmDBj5D3`2fl~=4R2#x72bLxsjODk
zJW#MtM~7>SVP|QaC}sq$LpDDv!w4aFDA_JvQ>SNb{`Mg?MQvE-n03M?jV-SCIoV@~
z(X-ros4^`o>Q)!zV^TlxE(1HZa!HUSb=FD_&4WcHY?vG+i~~D?l&~G`MC(&Wf|^xJ
zdChD(O17`;&-r@0cDWbb<$V}}1;Q}Bh+(kJWxgT&P3#xTK!0$*<*|&Rn$bi{3WMD^
z?KZ}IAU-Se>9CKBr%CG&Q56B^o-qAgGJ%X}Q5*HCaiD2;QFLnq$<itF8mHN%AEPyK
z*6>eau56@lAMoL&>ve{Re*MGaFxN;bE#DK`{2ImiNKB;3ps@Ot;1pHu-EkE6>Faq#
zOQVNy6b%l41y-blYA?XAYAjX))7?U|E6}$!_NY^q!gMl%PleO&UHn~nCa%3zyq(5m
z{IUjA)6>^vJB3}zFlO0%T+`au+9_=?XCqDg_q$@ylqtLs&%-3PFE~P$hAGBvba2^E
z>mtBa*`{iH5#ZW}*{YD!LGRCAENMaiWKO$fw#S+-=F+wEgj_h$=eNQhnJwCt<<FvE
zGGg-sg`Y3I7U5FDGj(oPNo>mT*KxC6FU~E(?d)_UOh|f(*ybSbsD!<goU9p!7EuY}
zR6CV;mjc%6-t8aLz7g0NeHgDW>|c2lZsuh=+>F<l$6+}c?%FdmN6^`K@luxe5!=p+
z1mWeL)g!cwXJVgqgsRV#tO{S;SVY}f40e3kwt%LW%;s=tTP~8`nJ4fhZqoJd1}1}%
z)73^ryy`n{Z+xvqK;NxTu~X-&8K$a~*VaQ%y2U6c@rha!5~HKq3V+Guk=BNt@b(2I
zgmSqBWvU=o1;(~3%t%|jsEZBq@Xt!?3^uw|RE79o>_`thlp2*a<Ey5P9zUl2!;BWa
zl(old9Trwl8oo61W1*MuZZ#$+T?5flbiuj9Xj8@n=5_)0t?SyN?B=miYXmtxZK(xV
zqKDGp8u7I*kI7v^Ig+PBzLpyT-j+1yny~VtgGB2QU2_3ONNl-nSIP6^y*LfsT^?}0
zw&L0X%vc2Lw%O%=-He+;=T&=Nxt>w0UphH4b!Ck^*n?0V(HLFw0~OI7(eYfBh+8Fr
z;g^b>x0YQg@|AVEB|HgdU>9MzEXS?VYd;uQ7Lr|K!*!zXKFHOh&@oOv`os>Ndfs(s
zS8n$teTbKdbz35y&e~sA)%fntJLeg?9Nfd{0((6C?0W3nvFWj!*h6TI{__XTXs_e~
z2q0@GwBlLbE9R;VBsKiTCmj;ho5nm$rR&W46s42DQS4=7m+=cpHbXM7mEOuRP`HWG
z;0N`!$P0;*uh$&OO^82Nl$H>SGgF8~+}TD%FB`|_O|#uu$l*amxFh;4umUZSuli1g
z60@+9tXy)_7PpsuA*HnHLG!mWF2s`esi46~@~{K8K?@WYSqY~>L5tb3aqWVZbc(Q3
zFi6+|$9-WR1;iSd8~#E}0DEkfBx@@NGa`nL`HKcPc-ru&c~Z7UZQhwuEVhgY3pO$;
z`}aUCTV9%iUrL*SIM2E#?eyF7MsAfDAu7wDoK(E|GJ7G%M?>PaB-@c$ps2W#Qzc(!
zj1n>Wg(6?l0&2Xag1>tfb8mo=>`(;M`}eYv82=!bZx^WuDUs_szM9159{@kQ@aNct
zJ1bhBgR4HrRWT?o_cb>6{XrCM(T~)+K#a)*CQ8QU)fo0x3?%K(v8-ogw2pIte^k+C
zXVtN8D(*iNqxnJIdX78xEIo%s7~{WBC=#>~+uau|OCB&(Q^yni>h@3fWpBgDEN|13
zPoJ%7-|+gxZXbVOcGZ%}g^-!~X+Wqg3fkuB(fP{<VKx&xG3fE=yT{@${{CSc)lBai
zToo1;$ah{Ft;s|^xFVyUe9-mo>-L$+6ceLQa0mkDZD)HC0@MLWi+i;HcbJ&(BmP)=
zUlE1HQ7&nQbawWt`%%a?6$&_zo#5dTLrX!+qTI?+ANKco=kDLX+ACrrd8G*U2v>o+
zB}0#QA2yFuA9uD=F^??G8jr#vJkLqX2y1HHFc>x|d*^*0`Zwo0*DlP&S?ClCK{h>N
z$QP&1SD}4u%vcB$`hWbV-bZM0N>0M7!rMN`r%J~(?)yi{9VIqW1@@RK;hYGiT2nlO
zS;ophoLZp<gr%}<IIXc4hxPwt<`OyfqV`!nuX-0A`--4Qp$E1}Ul?4av=a8Ny4=__
z77EEE53G;Ew(6gsd8g1$8D4+7Liry{+6pWpuwazK#Wr3VS#V#uw5d9_WsU~UjZ;fS
z^u-1bhQZYrUNp^R;KN>QR5$4|$E*2uQcbrbvTWw|6;1CgT6Z!Fzw5=2T?d-)n)|UE
z$J=h+)Cp&ztzu90a!>f2*(#^ry%R$#yM+OfP)e4WbQx2lS3`rT;tWy4sggW_RT+%%
zy#^zs&GxVt7^43jmR`kk{|oYtv;<Z>m7~vYC9)Lk8W06*B&83Tj{HiPi$Ki^%2HjV
zv2WNKP+Yp4)dg9^xRhslN|dzt#Qvd)`I%`7TrpF2HeIRPFzLV2j3Y39O7UZD<tXI*
z*<579r*Wc{uFV&<JGWin`EcQJGc^sbWYlv*EUt@=bkp!yv5_w($v4jmldPlA-p$=)
zF)D#K7GF2<CJ0;=-H(f&PFR^Pu@r6knE^9#axl$%=TPm~43qu?vLCOrgOAerh=K3$
zz8NAf0KJF*ZtBAK{j&D4cKzUPL|+uLDcyPR2Gmp+oj-D0;%k|ZdgvgN^fsdzYI-MT
z&v!5Hw_`aKi6UT9(qQ%K=Gi>JWorSk2f3&B4=HP4pmh9j_)dzH8*LgHZQ5#a#7{<*
zRl(@*pG|DsRrr?x(oY!y79Nwxv!>;VIzDu=+2(dek@o@Wf&_zUmF@k7bK466z4{{|
zR=1MmO}lpPve>k_OihcB&0|rs6-YMlN?#?t{Gs2@q~qdYHgp$0ZKr!XBuZlTu*k+O
zrmL>}ynWOII;<M$=<G)^n+_g|$|SDb+He{liK}Qo$7^J}a48rF^TGE)Z$3gB?oJ=>
zev=BAZ3_9WP6;0u=p)6B7r+}biZ-3R<mQiPp&-V8BGg{;6}pLY+`~y$;7H7uJCoa<
z#U@qMAWV6dIkFfZ$Rpd~O()0QzfO&xnV8f!^0gi17V{lt{9kxhrNNgCP)?JM$oDgS
z!P_;$%{P)Wt)?Wg={GXFH|g0}`L;SUZnrfzc)4lTJYSoCO}O5l=M@8W-RI(7BJd}I
zIO!P=Uz7r`8iuoaiWzEp(0&A{B8w8iqg966xh-Z|k6D{p;Qn)(5pHO@yXyZ=ad!Dv
zP8jDj+=phAVt-QSk&k?`B*CjzV;c~VO$BPf!PY_3cXVg)c$~nu3id`4+t`Z|1&pVF
z+Ab``(}h28m>04NQu8gcikEr=#|WF~y&8rr#Fl(1{TYNaeg8(46$F`vig1EkcvD=`
zcW)UKq;s^U&B5bY{p!KVDZ+Jii>{H|TiJq#zO_DMXV8lwqsKx+rV#*gX~Q$_pyblr
z9<B>PEuJAf$z>Z$vcJ2)v^XJ+k3|6e20kncZMi;f5Rx*Rgvs<iV@tsYMl^&~An^q8
z`^I|BdcR3W`#EtA+bW(K++^!!S<tN2i?O_fjRaiG&>ck)-4klt&m3^*b6_8{A3PuS
z0wfUBBJ{Vxv_7Zh`KmJ(qA12J6a$LO;VHGi^TLq`A<BkiC5-2m5?ezosiPArUdON*
zjNpR^IvNcrdiNWV$TlI8;S40!CJr*3!q`*+e}X~;w;r&irKF@mEO~I(2snAc5z)|l
zR0;T{$M`<?azo|6e}|FQl?u$7h>5H;#2e}hCP3Rzesc4Nq9N${v@Ps-tqEkxwrEvU
zclAHz`+IYcK4#l*Mtv3$4|$?|o86qEUW(KTR=dqeySx|>D1U2esD77k&BJSm6=Y$n
z)PFU^>S#!OokK(6bk&P4RVp6`m>?e4KOb3D1m~AyORSS}jX&^EbTrte;a<fxq`9w@
zPK4exHz?BYICn{w%8nFbuOU&AW=FxYb&I#(mq6Q<aC&P9^jn)<CO}NIeX<iN1t468
zi>?R6<9S{Q%?;*e@D9<<i?NbEmDT_!kIqlp%C|Yrj}dVq+!LNFWPn^oq_uTaTly90
zmDBNl3g4&+T@XJfc;CMlS)qs^P$4zqRc)Hg3h~WZX$-c(j1eM|+sCQ?Xz>Wf{yhv*
z2`w${ck}$cETsTbfC}doXRID;@j=L-=QBN*g%)~Oeq#FjdnC*!mQ>`Mp~uHt0o+-t
zvexNeXzvY7VMD=Yz+VrSK)Q<auibXZUw$MPza|x+7Gd7eq^^b`e2G})eAcsFBZG|;
z#L*GJ26G=a!=J>*{`6?1ahgI<2aJFdi+jb-fC_o-(L+p`E>r2>x<~=)`g>^ma|_=H
zp|;?smNoSR$Qgcm=pA}yQ0M+xFFYXM?-%qqE&0o>{AIb~T_!@x(RRkqma_MAW%mZp
zi^h4bM@t4=nKx@fyI?zGIiur$JT_eLeQ{Ba^QXN2XoX+<-Vy8-UE{Rpfb0<gQe<6i
z?;_r{-d=ywMnwec8sB%FRk!6<7Uw}UCTe-49K_ALk0*O%K_Q?>`a@h!wUgd8a?Opp
z_2ja<HD8O+I{T)sz4N27<eG4vy-i}|!{>}R%Rbv|*4N=)Cdl&d{_jtLuGhjmk8yaa
z-+3(m_UM@MKf%6fUbYvX>X}R!!pHJNhVYk`!e#Fmy{8*nR#OhIeMJWYGBOeb_jkgp
z4&=WC9`7wPf7Z$GyZak3(=Y3)D_(C4_j<xif|`EiHvQV9@!yM2la^^-pJyL2IeL#c
z3}qBrvs=n#+Ol=LH@^aU;9s{<0I>ltO0lS6g5NNo%ODnOh7nEVa%pH&kX-ka7#8DK
z6`i;Yxa-$Lz3V`==e8%xLxR=zf(>8EEdy1uwk6psL^5C1s{44ESldB+W^&9`Kq<*6
zERYq5`0UPq>KZu&5-up>uJt#R@E?<Fjd;0PkLHP|R1?Qpgkvkc0*knNu$%vR`uNzJ
zd7NR-2{52pSK|0rgK?){p>xXn8jay4@anC^NKlIwE3og^6;HzZes*yX_hlpvJhn?1
z4r(i#?Wo_R5WP_PoA|*p(ASGi1lzA=6?7@$wfi$D5Zl4x9bK{JE9xAy$-e&f*P#|{
zS}H1MKRif?YA%Ui`z|ni0}VDYI1J>({4Z%!Xs#z6NqgsU&E}^7!gvxoSju>{cf5^X
zgChe7@O5K%_`eZt0|h;m?RXn72zgI0TLyA^dXeqZ(DBhd*p4zK_JE$Z;gZuOo52K?
zNQ;vp7=|ac`{+jVuR3CIwJu|0-6hAfPeZECzy>I^jGHAN{l$+_P&9U*b<5M@s7t(G
zi&N~*X-d3Rv{mp|-ft``(&TDx#jSiflrFm(w666cq`3LNRi@6WPI#K#tzN-z(zSX6
zDo?hkV(H!)6|@P&HEQ_sL0X;;xRk2)tXb73IR<b_e3n|uGURQ2GpL{UVy;r|dqSnM
z-H+&t0+j~&@71NCG^3Z*WXoyDj*o0wLj0N)rC%kkEtWhsZBj=SjZs0hOG4%b(l>=4
zgi$~Kg_h%WVJde!t{^M@Q5%|mZ$lPNW{~(+oI0m5H|cXvVSa{ksy7mk;ZJ4WB`I<{
zH`#^I+ov(xwn;D&7f`WL4JzMk<aX#omH5>lT#}+#jYwtoXI6{O_?YUM<O91Z_E%jd
z9<LQ9g-7vvC1BY(iRET7r;}K18kT1ZIUT#gwxsz;$Cb7<yFTiU1pCIZEA-YZ;%mxN
zuQW{rs!+uv;y_XAVYCarD%{GZe4iy5lytSL$8ib!+H@uBtmP?5aMKl+l%=GJ#ei-(
z_I?p*QY1p*@j3!4ahKdiq!q2MH?aSZ#qyN+x@>GDbOn_D&fg#^o*)%|kPH&3ZY#K#
zt!r2230yiZx*t<H{x!tV5C2(xQs)-hn~WHtiVo3O8om+F7R9&oK-uN2`NRD!&7*zj
zM-)|~{ya0^htBO*a?_zg(18j+V`L%EPiPPh^c>tDEX1nYEA;Vq2n1`m_Kcp%m7|?U
zYF8%^N2wccuWa)HuI*0#TCDS^mCbnXtJ%H@iGw1q<4{?844A$>0Id;oiSGVmk39x+
z!;P*c-_}uWLeDrpR#;n6nKxIy`vZQw$W>4G7n0x2kzlMc(^XsFm7UJ$&*E`E*}Z#B
z?`p$9NMw}~pCj!Ssvr|<axnzy7?BLAogsk*UG`Wr@g^JTb?@m}$BScuWB^>mFT<_b
z6iK<NjklWfvT1nOhkkl1R1~Cp*`o?r{1{kyH^q3uG@=^}R`FPyXVWhOZPG{}l8Mi1
zQa&O{ALeEzrkp0DKhlV?k@cJmL7a`71(2`Rkli@JQ1=C)?T_alWVCBJzVQNe{wC)B
zK1z6G0(fN)D1m<|n;?=6B<FH4Yn@BgQb{WSZl$9tjTNuF-l{M!;|bw>9wxy^WbA@V
z+#-&zW%z?dm!r^^sI8!f8Bi?m{=|Ku^MK&_A@80;>VdiiWw0Nd!f>|lr+IeT3(@#P
z)CtD4H|&LC)VuP4K7403u*K+4@<RT^xvSw$VwRVG#y;)mfnrT@InPlTmo95Bj8|v6
z8^o=9*#-9EM|OpN96mzTauqJ4k+sh2d|OD_oe3KzIhZOZ5f(MVsf*E(rZ09{fi1IE
zi@#F9DYK(1kAlz?TyuBYXLGPW-3t=|ks5djs(R+}>vxk}fGj+%8&L1`&k%fQF!}?L
zfdzQA5D)PX0hvR@4yXA(n`cxUkvH!B<hD#`hCKfVIHq$<Uq54={+vKymzPi<qN5a%
zD!)txkYOVwZoY8<uuNH+;l3PmyYL})LI5vV)vA}fi2Dt*#I>L!TjCG{ZZVu*0PrQ#
zzwBEP;Rh&<nh}bRWF#QUT12j!d*MSXon1r0S0W>geW-hNk7173kb-_&ddJQKM0`(i
zH(v$^exXEJwX@X$BlJYidY2(KQV(tK7zj|NF+5E%99Z;uA}5+W;8M$BAf%&I1VPbg
zny+TiP@mCkF7OtUaA~eVRQx5dkt=AKeL@mJpsuv=;ru%tDpqO_1Elgp4^qxb&PtFt
z>bN7p!h1X^t>`ipG~W((UOOLVU{rPESUNZLZ`Vu%m;l#24-<P>1q)*Yx-3iso9C?c
zV=Qd#m_05bUW#2<_U;~8Mb2R;8pkj^^iM+0ZjKt63-GpRAYJq6!nscAgb2Js&T2)l
zQ*B5s=tUkfLZ&XulmM`k06$O|?g4nWgHlsai@HQ+1_iNLFbOn>I3dNd>QfSIq<N#2
ztuY!(l{_w8>qzoIp&__b(AvzH(Sk8U-0mF|OX73v@SC5b5hP{E-z9A~pQ+)=BFQsO
zSP8lweqzy38w>n1pa{_0y)c1yl(f4;1RC9i2+=Q)SMd@CAAzz&S1d(Chp_?I9Kfx6
zm>Rtpz)=*fL4&~W{Q>H_-^!rlOF9F<;Ha1m5Zcln_jVeB?Oa_V@3sd0kQ#$)7Vt3R
z?iauyb_PJ6z|;nU`%avpZj&)r20#a4y&E&L1rfX~Y_!Dkd~k8)L&W#T3;hueAYU@?
z<{F~>Q$W#>?X*cd+wf82%8Vi;z%Rpxxli>Gs6bPY?b<ZiXPB6a;o+b<3RAh%zd}(v
z!VHOyP!;ME4i!Kck5${CFhmCFI!sXB2Zf_zdg>DroclLm+xruEN9bt(j8nqEP$`W9
zF6GqECxGH6nY)IDqW)G1B!cpQ4AV&+KjjJy3)#X;oKb;>&iq3hIwCXc5ok0jy;Gmz
z*s5S4;}`^l&cf9W9s|{GOXfcbhs+`y4+WEz7a0tC4SdTXtFV!fGv_miZIF+Fg6`_S
zjeyMN9ESk@?7&H{w`bZXg5zPcaPtJz#giEvdg0g!w0>+hQ6XmW@8~FE|MgCY_;lWk
z)*kYx8@by7uibGJsLz{{ZEj#tx6|N5{uy`2Bolx8wWsI0Fac=E3O^wFVO%db=FVJu
z=lUen2To64Z+vY(^f1(iWCZZ*T5Wjkyk|KyL{=|GTXg+uBquZ`R<BWGeEqy6TrB49
zvs7!+%-)^mkInPnCge$Sd*c7THkJqjM(e4HY~JycglEGTh^dZkUZ10g<-jgpjkV@Q
z|8hyL(-VNKqPb7IjNp;!I!atb#NSRTNtGA9Ev#?|bS_qLz))rP=+;Ll{njq1>dhfD
zvpwC71O4!+riED1f`8`SGEA$>oUUL^b<F0xjwI>5`I*WyX&>eDHuP^5qxWJTAB7)@
zhIp>CmyC3aLIN4?Xw`P3U1EZtYgjNHJw<8Y#qycE=^^%N@A}Kn8rDVs*LRj%&m!Bu
zDButu&PI`S@P-yqjF8u7`S09ZQ&b3&=VtLE(wZ|)3)>BItoZ_auSgx%qHyTmjzf@V
zt>aD2WyhtG`?U^y0!-vWAg1c7WMuVEZZYm{53hu;y&T^f(7)49r4greNEM3{9jW?0
z`~qMfM<$P~*FIoeedxU37y7V2uFzF2hg%wHwc#W3v#r2py=e1V;o_Ifzos;e&z9nz
z7oLbQjj<Burt)Ch#{15HPen>%CPe35cNWHSXm_H>t2c{`LN6H~seEob`4XUHLil{z
zj)fY~lk&U>BGC0F+!|!-a~PV-D16Iw;f4P~hcYR5$?Y12Ps4JxaX*3hyocN}r*p<6
z$!YT|v&g~d(*r3Ss{=kf>&W1wif`h@NIy449iI8_@5Sz;(JJXA6@xq!qBqkNs5t`t
z#votDOfn$xvu)6SDCQka@>PoK<#6D!-)EvTTnx6gpp~p=1OE)|lU|7aw>7}-OcrlA
z7D+rd@kA5Ei$gmnXsSI-o95!IF){>~m&`>^fFbF#9f9K(F60Y{Z*|T|c`aZ#T!JDB
z&~AS*4U&{WbI5C&#_@{oFsv@f9YMhvc`UTi(S??(P_c?p9d`sWm(+(8(5j@P4V{E#
zf$+wwed>aD#1U|>!Gk07+p37S8x5U<rOTz@m=Fxg_}Vs`V?F-ql}3uGf=n7v$Gbb)
z%X&Ff?XDYfs0O}0Aa@`BO?gLLEZUMf`Q(x4Ix?QRbf_vG?HoqEcBHyWVC3DHLM~wP
zrD#{_#OF7DJ}}7Un+Q$1`3JZ!_QxdF#bP`9E_Wu4!l;1$9{;=E{89nct9ugdBrR)P
zBZ@<ww<jp2rj$8K<-JHJy27Rd?Txf#Ib)*Saa7?XYT5*KVN)lWRktOD-M+D;YSQ53
zZ}&tRJwFp^$#_=`aSN<k?M#;q)ztLZvdWoAYl<pnwN4@emRQ_}FdN$&mG&T@0$)2R
zubFRR#%pbLFD;(jv`VdhlCHADp`=UyZ^mA8PX((+r*N;aMW83Gx0N`-IMEj;3n$jX
zT!N&AYGlisX-SET+6)_|+l2d{`W?TBqP>RF)#DU6#dVs>akcuk)RZurwxT8{Z181j
zXe&7mH;t5b2fnRl8Z_Ue=DTZ6s@@8bX~kG4ca9K4Izgk}sP3RniOpIqlc#{bn)0LH
z^=>cy-ohG0%fejD!4zcJ69mnf__`_TkK}~{(<>dxtGZP9q@pF(NIARMQ$Pc(zYfmN
zHe*%Hf$F4Wsz?EI)H}$YS8y_OUS>)|r8t}^?5)yh<<&&G;%Bw2V{g3f=$*Dy?BuLH
z7MKa6e6$;V&Sj%7ZDy-vx)lxl%1vYI;QU|pge<;S<TlJs6|{=KTIoy~O0cSUt<2!(
z-(3-w9gU{Tm%pFj+fpW6N@6xcFFR-0p>m-t>wE%cv1WMni4Z<&CLuBI7B(IsZQtF)
zit<jJdh%edTWeL5=3Gmqr5eES2tA$C9>T%);}?HfuHeAs)DhjomVs;s$qkv(-wKAK
zFMy1DmXNG8;=WU+Q!R(8oX_u#TP~+orhM3annFJn@R1H$%jM^(c+9#)Ff5(d*l8<U
z8<v;%yp?OKUoxhwu2GL+D#bBfeI+oTW&HIpTh=?gh23_zEYuwpb<2$<PwPQ=^cixW
zsEviLwz-%H(A9FXN>iTV$1c<#4HN7_lGs_#$xl=P>-PDu66OfEixdm$sTO{~#*4)E
zok+?X)|u4F)Qp>&J`v20MgVd;b+V#K$yM%<$sX~vtqrZa$oARpiLui}BkuEyJ@TE*
z{J350SoDRJ=Fn(p8;)}KYNR;cf15QnKKE*edX%Bo<a%A{xN$JYop-&8<Fx^<uSHPk
zv;Dr+njb9qN7JA_02E$*E4I#MJGMTCP=V!rce<O9<TB<7<~DkFG9N5_{sUBM5|h@f
z{|Ey()TL$Zyvd20`z3LQ@<BrSrv$_jLo)jsBbE{4aHLMs3FZ4ssxenENC=pwi3Q6j
zW{zudWo0Gtm#l=lKe_u=*8AhwSN9Lj&%1XBZs!ayAt{Bs%|4+$B|RNYu(>Eqj%j_j
z@h1vG$3G=R_i_DF#^c)`Ve@-gYvF9$owwFszTDwWaG2Z><jr*#@6Q8o82)>&yXwaW
zq!T3h%*f`}{^UQoQ?&TIkM`g{pMKwIvp0!2C!jgiGBhD4pZy_&l*Y)eag!4Up}+I&
z|B>vMh-#@Ho%Wod|H6q&UU<>y4V>=moJ$idw=jR|X2W=)$gl~3<ymPAmmejwV>v=L
zHq#osFqb~UZgaKDT+TQ?{a~V+i628%8)Y*)83gQzZ2S{DeiKed#2`5}vC-Sd)8DX2
zW9{P!b%LW};+Bb+7@0!Y*%*fF9=0j7W6cq3X9?r&lL7nVKKiu}q;vd2WX03n&;!#x
z!{nUAqt*>$baWX6>6)4WcfT)YpyFoYzkSjDg~@-sKp*mU)0-AwnJ*CZF%gfLj=BV<
z56@9dB(bpOSbq46JxqDQyox^U`#s#fIO+#YjdUpX(_(%y_o~5JB-Qc_L4=7OQ7B4)
zO0>p*8=b}&ui|CTZM^bcgw02%CotKQ>U9~yCV7C-$`N6%Vc2(HhjZD1&$a$VO7Tvb
z#VE7NaFwHk&paM-U!y=M>s}=p+Wk&EK<iszA``<%lCxgTEgrwYa@V3V@{dq{u2eS=
zeiPJGKLk!_FN<te(jzoRHJA3-2;|2dy=MmplZQi}+G&m#UO3c5hT&lNb#u+$e_*yN
zO?jU;nIkmrL~0EUciKTq@_4<vLdaQo{)clj-A3l`kA9q9;hfqw${%(m?9qfZTBbOV
zo2e1UbInBE?upLIMrQ9*)5QLhqQJCsjHL9DlcK^ji=NvK6_*H9@>Z26aU-p%_eR0I
zYNWhR{=&{(V?3(H=LC^|P1t2xE<x1XzQX^Wr_T*4Jd55pWuKn7m?xKr<vb=(-Cg>D
z>|fp-)KPt7&%AXkkj&@dJzLO_pZ?Mfa|mn}pww6kfuUk@$89%BKIe(uKMR*91p@yB
z3xaNEiy53%LDM!~ON#26Y%u>pDL}0&B!h`-+if(CN=q2FoOVx#4p=kf{MMlKA&y!i
zt{_m;xG$E7V5b~RsW2uypf?<d-4zEJ+H(vagIpP=g*4F3mBcNzH2RfnQWdEg{azPI
zCHl5HjF?j+graPgVexo2^Il>6Cj@^qDk&!o6p`H8bv~|31$;x5T*c`xr8r~$q-dQw
z{ppFT?kU;I@PvsVmypalhO5rfq=Y22!rDW<23{zBAaMOV>Ya%xl^&qm7GpxO;7Lca
znYC?M|CJ&uJDQxDjtXxjXzDYu{{jf2f*K^#)KVLfKj#T|X*id_%|%toU9kk#c7gZ>
z<-#oYSrOi<mHEE`J1WPUtQz+}n|f8q$2>SCv36Ux+G<n}b_R;IBP)(lRN7xkr5n>6
zOqDU^h{-i6;dD>vt*Q2FLms!rcZG%cb;4L4Yxk;pYsae<-?!Otxttn!&0CR+#K)F{
zMmezgHXc^(ZFFhdnj)ukV$voBOx!6Oe|_s2<l=W_Wuigt_Yx~#Meu#9@=4#Eoh@oP
znrFpq*Z!;!sNMKhIey8drKzf{MffXRw&$9dS#xa1bsqdX<@u;l!`;HWt=sablTK~r
zI;}dHD-TV(eQgvF%<z`JSK&nx7}FnR{N~1f_B6sEjjuFafgk;+^hG_dduQ%`%yWHI
z5pr2EmyV96Zd2-W5QBNLBaa-BVH*F+?>#KAPs0XvQu^UKr<(hWiw1|?USx;3rX*B+
zVfJq^CGTIv_Ob@W5DE>k{v|wiLJwF2N$qZ9<rv!z#tE&pTr_;id*i!b?OR^0r@pn%
z$||CS-b%bm&1I5P_zMxNu46CE*g5ScI)_AGF4Fdc&31dVp$%PIGW|Njd-QECV;kzf
zWSX346`2Jfh+uhDx|jQ?Cj#B7v--|Ruu(>U<IlBrJ{*S+yZj_!1fL#rm}2aJaLQ&#
zVFJ&=l(9(;`FuB)WKO<L>?}!ZTd%CyuyK1V_k3#ITr>0G<Mij6Dq48uy)}uwx;Jxq
zoa*bsj<McwQ=LmLb8yXT%Rchrc?zDNVz<n)QCoVLeVg*s`^;Zmhud4NXp<{e#jiPC
zd0*U<8@#jrTQ_Ey6Pl`b=l;!se%$dRqoVyjaLYSlk3agvA|RQ(^K)Zj=YRQDQ>Mr=
zJNk4cn-pHdi*-AY$sr~FLGb-ajg!v7$T5}P!QAMU11hgZLSwHJYndU=a3CO|R^#^4
zhgZFt{iy&lO?^~XRQu&Gsa_MOo$kj!y(H_<exTYHc7{HrO?gzc8b733Xy}kK%Q5BP
z+HT0*7mjsupoC>+tngXe$GyI9)j7cC9?T<M3W1Ybg`>N&W1arTkQLCgDFtqavS)|T
zyK3g%V95F+Y;6<HKIMJk;8emJwpKA;toAWVAHRL!6Muhs?#myxUdiRJAL{7R)wX_E
zc+>u{#lV0Q9)XQVVC`^?Zs;w#BJMZDXt-=52*Hqv@-=D24Jj@6fn`!P0=ZE+PEi}q
zflxRHi`T#Dx!{q3Q4Gtnf3oQK82)b#_k5P=hwpw+8}ccP`nV2saWl~qGt>{};g@XE
z#Rv#qYDr{a#<fOxR86z-ah54FJCyl@xV+v@_ce`#ZQ@(5oH50Oys!Jq&Id*=Ny!J3
z?b8DtetBh;ZW1H6MHA!#1#X%U`GhTVR6cmMA_4;Ym}3!NIS3zkB^7;N2(Y*IV7c+=
z&gVey=c%Ea>sz{-oL8SKc!;aR5FunUN3=__DZZHyRhF-6K`|&tQcf3T2T=|O4Gn$A
zoK)Y>oLl+J6DVIa>iE)_tNByr{`nl}G?v##-FId!)MwL*ypmVtJx61A17Yeb_;Vc}
zL(gA{<3bV_2A2aj8P08l&CvzSwfCBFb0cGI`gP*ju2|-Kiwi*MneNd8{w6N}XnO&V
zBGg-$Dkcy(pm&WXM-4@3tm#&|Ykeg6Aek+AbE?*EnTHcJbNpZ`J-=-4=03N+5QSr#
zPBFH<FhStx&RI+k#o1SL;oL{1jtImyei{^iaMVesG4*0xzlJUNoSbDh$Fx3};O>3j
zXE5{6F>*+C{xRd~taY?YVdnR-SecY{3`#H)YOGSEh}J7UTKe}mR^ZNBtF~r|9FxxD
z&voN)UFT)HCg~FQkR(_}7HGBehcrn$A;(F90Ap9m$Tf*mGj&vp{wql%|CBEDsY5bl
z5L@i7ne-aR`#P6|rG|6D{MQuL&YEeklZBq)&td*9%gNGeFaLG^1BtEwr#ZzY$H@Dp
ze3OIv+u_{TTxxvU^H<8H{kcAkqV#i&nD;$}d2F8Y^ZD@0A9_AZE_qQO`P~8v4F2<f
zeAdx<s_&nJFU=^Y;Vpe7-+b2npY=f`y+eO?bZ>bTPW{Q_FrQL)?7#A!BANWBI%41X
zya)f{lWlK(<b8%JS{_UcnrqFxuV{rIEOAovAD-#6#!ov6;3xauEsf`k54^hfA`F{X
z4XU>yFpMnFP8XY==lXsBbCjz8fxWR)`4I3Up)fO{i@V>vs6D$7RK_k>3<&eAG@r4k
zwkio|Y4fxIrMKumrI1JP{xif4v&Yz&LBC~SN;wcUN}ZGVax}~_zY05(M7lbpL?`1M
z^5SX`KX5Di@PeJ^oloJ1(RI&hY>?E}b%cz(99O#J&oQ*7x!jj|^b#4w8hM=jDD~Uu
zol;-3(Mrr8djXS2!c9H84_PG=Y7^hV>mJNeGU0G<&n({5#u?l6a(&M)w5#;ryW-v6
zK)ATP#Ln|j-CF+C!OZ$jt_NG$!Svp+XVb^q?cC3I5r^obmx2mcwfnRGjsN!{yV&-o
zP3BtHfeFjr*W-xIM8<$qPZw39gx|Ke+u#|4%~ptQ^AMqCSQ@musfW&C9xSZ24{eAM
zF@lE9RK<64qA1Uf{5YY<r1o&t()V;oc}p^fw6q@NdOHCFn96$08Zz<eFcO}X<q(b)
zcnyTTCF**>w!w<;%c$CxoXF3_qJN*L%XXlb%~u^w(kfb>gBtM^E)ZY%s)RB%gd4Je
z&eP(ws6#xvr;%kzC}<oHRg%Gh*)yrI(T>eTfflx-m|WqLq401&yNN^<y$}1x>(dLG
zc`F<X65fj;{o$avPa+c&MXzIhn%efFvqjIV+)2OLaX5{g3w041Vs+Kgc!s1dUV3m#
zRh4qt+5F0ir2?0MF5Tctr<b@eg{Enm?x<z<MMZuzyloCVUwA93E;R%_n1BwQ*q-RC
z(nceuK!{KC1rG=jmK_3x67?$KtcQWLex7rqMXsk1#lUVeQ29+avmWY|7CthMh&Sua
zL?Rz*>ru_G2(G)l>1Ngg5T?LY|2|2?b+2iS71wQ)<DF~5N9Wg~7WlSJ(c#b?_EaXO
zp&3pM>A9H;uI5&41+Mys*MrJ8d|A*s!s7)iW6zSE$Py?AdHNEI^|VOLXs(CM->t0X
zlTyV`=A(iG=q<$M^g9l54IAjbXbX=1y^-zpTzjT6!<lSHU+Y@#U5&|YYAE%Jj@GpS
z&{Epgk`Wp8_;^+vTh??|;5(vqcv$vvPrLVwCu<dSAVVd8p$j!y-f3%12jZ}PH?w^R
zfd|%Xkn34avmMRscnN5|HJF}p0{F=10r-$Hn8-{gs^eCd5Y+(|?}w|zRgd>}P>B=!
z;*r~XP3&eKKkDmYj}R*RD*bC1cbtch&JQSMHK}lQt&GmKzNdY_%IT;^zYW7YExe#b
z0eB3KJ=wr8nod-5+9V#f(lp(hxNM%iBO@YEc05i^*P{3K<7|eo6=n^Y^JdT-3f;|+
zT-b<yo3T8N-iN4czVlydM4;|}Guu<~{BeBF)h4DgbkTIeGX&K^+Qfqb(Dp~E-@8V&
zn_B#mw4(M<>lg6%y@09Lfpw0ssy^;E33YzCHERJM(P^3+SpVelVKWHs;X_~ki2M@8
zuK!4$Zq9k77zW*p^p^_i?=>E+tYz7CsL2gWdzsyl2EuvSNezI;v8N<5n(ZnSp{sG1
zo+)_R#ft^bj>oC)obxDK`D(gj-SX=-3GJW6o-a%@%~fKtn8IG9bkOV=u+ls`&0}q%
zwK9nx)t)ToL%pGF04R~Yn3)zf0}=WByPa%Mf9rotr6VN_)Ox4L9JW1ipwORps~{sg
z?57H}-fwergwOiD#2QNrQY+QTH0qU}vLGW>D)r12uBlb+6O=7zR!EKd?FImaXR)2n
zqKmdK>2|ncJ6?k7uievdy)Ae=D^0*NNx`j+eAr<0v>X~WRd;UX-f7($dg^ruqz>I(
zpD6|hH%`>TM)17m3UqWHLICUBCqn|sPQa__oc~n2+!(zd?&L?VcSP8QEUyQ<B^8|x
zL~toD0rFR5vG_9Y6nkr7A@&GPCa8J0C)V0=NCzdRze-jZ9nN7sGob5fEI6C*Br9^-
zcN;-a|GF0?{QOR$a~so&I&a5O2h1F8iHYoBIx(Qz$yji<*vU}ls>k_H;q*Zz=Exa(
zq1M|`+LDfZ$HQZxZLxr*`{C7~=NWhBAL;c5Sz}AnAQs`&vwqQu71N6iJy}FGNLpJo
zXP9)|%ro+HX?MYIV94X(0imIHQV<zo6D$>`-G3LD&A05128aim^Koe8KAqyl)(-g?
ze_)Cq$%KvZdC-Flv3H{iGg0U@wWpckGACJlaS{g`NNWvO)w1rMKZY6dZu!!LlrY=^
zOxT=Xa-p6hwk$kfU-?&_&VBJp)N3`E^kp3s2pG?FRDmDyk*@j+bF3ci7h7__qx}q-
z#=3eUWTb011^7zi-pDbk76*MK=6d9n#Y*U?c74m#%<y8!95DOMfQn!!U50c-28jN-
zf;31kK(D@D#Ebi%kHD*LyfJXyakkg0Bi4leG|PtnZmqI!8kH)haauAh=$G0;N^#<d
zb$8U}8LuJO>aE;+9LAa-U9ySXF!->{+SA6n>HAvMIAO;EU0WyCtEu<&E;%s6)8b#-
zxr#pbFpU?}X|DvqLb>Flz^yht;wm|tf4_^F47?skP~WleD}35&18UguAS*hu>qd7p
z<cI@!jMz4S$H2Kg=W4d=E^{*AxF1sG$g;nWTdXO;kUd-T@7;yt6=;i87uXf;<uzi@
zc3MbNgYooicFT6us6V+vw9-WnQQes%nPTv=;Gg{Gf#Z`Dc);HdfFYcmwzh<CErwLf
zo<CWro{8>IRoyHmSPw?s&ctIom4TV@YLbHp)%k=c+WJhYj#^_?A(u}=5KQb@2MS4X
z-5Ow&_v{r|E-bqb7N`!LO~I)hH<@i1y_#ZBFSTiF0KHqe1?b(=tumJb*z186+%yi^
zPBpW?ndi>P2i4G#@4hH_nD#&>ViebX&`3-3F&RnZYO=ZsqK#Cv$4cs`_vj2TQcrjq
zf}SUbF#pYzHW3#4X-`TN*8>KEjiv07?rxoZaLBCC+d^e_%u9ss2hXz}Vc-#emQ;Ox
zq!}^kX#rTUm1TZJj_}qRek5jlRYS2V2KFrshg-n#eQR1<(t#rdIY7t}bAXV>qla4W
zOy;Bu+)g6k19{C6>bh^#+~6FUPBcYFc|Pg6T!Lvfs+`h=wbeD$xuB~n&;_Wirn_0M
zqi)iDYP$X6(VJF~<qp63ppYz?=#FeR-gk(jY)h^q&fD8{kucKQ7>td8fA$TowLGi^
z=L&QG3RK{F6g>>BSlabcd?1E4oOmi->WGf*cn}>9+I1%}F>%0iX-IR#{SWxU{|~%=
z6JOTkpUyI~dFUs>;(lhwVAVvQ_evA0#gHr^8YRFG@qa@xZ93U)idptHFZ%W~p+4Ph
zbRj0~U3^j%8vfCq2GSDrT$;_bIt#z+S!{n*@~nlp^2pf611Tfnxtoz64)$)3XJpXm
z1K7*=0szG8C~-0nxF15}XnoTck>ijp1LZu=(Zezr<{#5xmyuu9?0MBbsK)%f0mQWV
zRDLNrgIi^sTgNqD{&DHq429sOGP?_;Q_6eKnGq;d1W&USDX`dQIx=E9&J&<pEx9ym
z=sOt1dMuLrxo9*2i$3DyVa_QVZ}+QtG2HjFc~D+=Lj58-=h=OgU7S7VeA2w<>K9xt
z()qUvT>FdWNVV;A90J|W&B(b9@2-HTN&yZVEG-hJI?ALQc9Zh3gu4avce7HazV`*`
zNQ#?iu`NrIg~S$7@ct&i@0?sC^-{TZJc@Ze0rq4kJb;VT`gBmGedtBi-T3JHmj90+
z1uHZy3Wo;T#Alc+5`#|AEMTgzE+F<$`QOwdxgF9t--RmmZ#I%hwOS%9&`VRKI%u=q
zordfP_=YcS01Xv)R_N;gOT!mbtlI|e6A-GUPEas>)+?dkRcf5(5=MI%_GJO0vJ>bE
zTn#$EcIvb@8l*UrCVL^7f>bJEA%obAhDyOxKH<%8EBYi#^0N7;W>O=A%=Lvzg~&IH
zX?at9x}*Oh3ne~)6l(u1?P%oXG>`B~iHjmytsX8H6mU{NL5#%5_v_|Ll5_)yFI=sj
zE)`@7uzL(=sYG0IW#kjol)6&}Wc^V|#^wsGRYFOR2n;ons1n9vIP(B2c$HX%CYM#i
zt}(y|0gE;hQwU`d@N{pDykq(|v;vgThk2*tBJH$DMn11rB@xt*&19?^7_(-c1GC`y
z?-+t9Pz~^wDPWl47*#N4y-Y_2rGst(GJqH^;=}#S0OKsAhx}ETPCr2fxVuP9^?=uf
zs8T*WM5a%OyV?3P7oE*Zxr&_hYuyd0HpHl#c2~(}oD8-FQ@m8OYE9r{Qfjc#1X1VQ
z5yz5TX`vVa*JuEkP5s9VdS;L3n>NKlT&@t!Qttopn#M4XGaXZi9|qM*%#%daAU3O}
zo?pbJ@BG88iG*SSCIuKH1dJuzX~j5GJ1a=Z6rfR(2pI(ahXRgs`?L@P;IDytzyI&F
z`7|$b%K7u$JP`_I1*Tgq|CG{+DwBGlR6t6g6%GpwV~tXW%E73YZ<#X*Rs~Q&FzW=N
zdIJFV2Ka_eCnb_K=xo7i)DKVD2f`lrxXl0@jjt8B98}*9tQ2E0oVE?=y~&Brla(z>
zxXFzSO8!Ir6e1|B@oPOee;HOQQ_ccagUqg;8rgJeC(_|>?vk@bXlH?wK?NW_)(H9X
zFV=Vl(;8p{U|vm>3K9*#e5A9mk7?33fVUl`enDb9*c%AVCxZ8tjEFcs5rW@#CiHR=
zPOZwykFYEP<2jm&FWe0}L<OD}O+W{2%H#LQ<wwV7g6n`(aVo7*fx${OWTnF?glpIV
zGjb$4V3}ar$V~Mb|AR374Hl#5#XFb{AYrLFHkjIf)|rA7*Aa>V7L=1GLbDt;8CY@{
zUS-sSJe-!R+YN|*LN^yF>t(hL#Qs>OcGf=V3*>T>HQc?(m9fo6TWkk6S?Y>PAk3A*
zAz|<eW_vM{J4LYb5er00<C;tS8V27WVW#8VW`L+^_{VglsMiWOlgMeepN~v?6|Ibf
z>^#bqX>|}A-MEkKuH%%aZ?<)$B|7%Sgz9J*{GaO+xjEN>iQY~ZU-LK)d|7ATBIEx8
zGh^pLtatp81*CDlEKo=fyFt(`4tgrc+DBayt2|pa*2B!aH*qDfusEbh!c6hJ&bv6q
z);W>q?ZX`rFf^aU0QcXwL6DHO?As<$ycmXN*futyN`ytLt&yyhI2h_W8_lu387hl}
zhp~a;Xc)P*y!Q5XDY;G+8CyqUnEpU5(3RkegvW5)5CMbXL}+ZpauV|NE}(tDf`y;{
zsskRz)(hCu6S=ksG^U3PJw0Yra2H<q47QHd`bYVkC<+F_JrfX_++Q18;|)Q$R|lP!
z7SFM#LaTdH)@!q;{<Yts19rk52_n>o-_slZku`TxqGM!oqB<G}=2$2woW;g;<VJef
zx-3W>kG5s&@SbS(j{e<H<@G$fWTL}3P0+4F2Rz1Vbdj+iMyHIeZwJ`Mr&9anEM~4y
z=*^?mRKiBP7EErW2GLt)-T%Z0oYFttP`&$o0V!apu{Y&aNZ_xCNH1Z(;wZYmnS9t7
zPuuv=(Oy))jEeM7GSPkAHQ=?D+$4_G$JgW9TO^L++MB`$<2(?5F-gdfUZek91%kr(
zzbk|c^Z(>@)WK|NC9(q1-xs68!Qe$VWUSNN!(0He`ezHBeRFS0T3d1eUAqXG=)7+w
z0No{hG6)lLc^g2AfOcCHEIE$x0R48NUkm9xh94`%Shpc!2=o`2keTUJmN;2}=~R!)
z!pCS@JEtvoqtt@MjkO47*VN``2;WH`cr4e4c3@BsKO!Ncog#-Wc>Ql4KmoeXi0P|u
zOJX9Sd}PP8Tw)9@U1XOqncSs}0O(}>a-Ymah08t>iW&K2Msl^#i4YtPRfRN_kqP4R
zv=(b!BKBsbzXqf@t8D1Mm=x8IuQ4}@YOfdC%jcdIG?rz44U6s|W}@eQmEbm)*7Qlm
zt;*!BOYOJQ?21WbBru?(snMLNJ1Nq!0O`$z4sGH^XfK4)3>CBKE}I&(SIQEhX5K}k
zTT2kNj@zDo>^%m$V=+iJh3};IJDTH4*Vi+E6O)qPKxJAj2*^zZS$mCPebqR$a?yj@
zY~!Q@Q`^K^Lm@ejMm&&nX>V!+l=nq$IP}Cffr%-QqA@JS8gab89<mTIs)DiXc59Sf
zlhokoo*%lrzO^AF0;;P>m=4=p30Zq-Z7pZUeSKC^%w-!VGXkc|n8euV+andfK9hA<
z3T2<UFB*ZJsH7O$R{*gVJCVeoSXh(|2yL~1o`_g4Ix9z(VPmmX)J12T-Mmk*6H|9~
z*2@Oaik_Q(6ksjhwg77Z&Yy4iY+>N0i;b)EOMH7)=6M3qj@JQ1XA<;cI_o5B%;cv?
zM{g3&;l7PK93-6>_l}7KAtoAT`pY7QW&i>uFj(2ZO_%KH{dYxlq#7DK5=h7>9OTM$
zT4#;4?WNAO=R8DBGY#nVj`qAT<@IdL|J{}_=oZFN>EAZ740>V^&gAAc|H*gTD55Zq
z7ms!U9K?CNz$UPGP*!+Sj2;h%gqQl-Ky^5X+-4#pWAL!mI%e6ZsSVAGvfvm9P$60e
zQe$FZ95ZcSoto|HsM(}zLYdSbg!b7qls%ArAVAl<xB<CfLBy~loYa)iYb1-TeM4n!
z?3Q#Ws^l<1b1I&K?w-qnitxWPQzrN3-?upHnbR>0VQ}X3PFo_0xKn3kxM_Ap<%7NW
zitfI$I!hZ4*g}ZaWHS{w9yg)cztgKqBeWs@a%+sDX&Y=2a_O!Mr)f7!vhnuMTJHeg
zc&5M7AFBvm?HEs#KR`#KWRb=TK~Y0C4m9*c5M3c=`|ppcUU#<Ue2dQU4e4jdFX4q^
zRBhFL-#|RHh4(Qn#<ljg6~1-;UcI=yyS@X|eLNcZDwVCFRLPZ}5iX*uwQqjEKmugc
z)cvpbDWFVFEc8#&w(C-E?c&+kt&IVzazP1+Qq=ZkjRAB4^mjYdP4rN6j`I!Q3wej4
zk3jacThmTFR<23#)y;+D<JHeQ*NEFQ)`p>=xeIT9@Kyl-{PJHizbvF~g!3vkncr!z
zNTqjKqMXH4cN{$p;e7_;Z{FgjDRu+MqBP>Rd+6A2#o>6PH`@*J&pLNhLzn6Y8%P^N
zd*Wh`|JLx*%0@qU1h$c1KZ0$#bifH50@9J9-f&F{n3Hg$GB&!U1tFOeDo#K|SCS^Z
zGz>$7cW{}%{~V{FpawpQy~6)8Zl@100zE4z=yX)$vAO^2EDatd_)Z+;r~qq^i%5bE
z0lE@<S!FnKm@U5CsQ($G!PgC`1~k)LpL53eYY|@F0T&!;CfM-rE|*nGda>Q$dU`vA
znDe&~(Kw;xfC#0e3sO|&$2rid4{mr4k|5|J29iyH(d!7z@G_r5A!4gnxUW3tGn?SJ
zq!gnF$mj=9c;pP|SfpC(oMD=JoGX&%8|yk!&QDzkH3iZ#Cwk|gMuvRoa7Lx&povM;
z#$qG-v1!-f067#(UPnl^g!+-d+{bNpI7Q5<qtw+&7`Hmu9}g?zGjes8EFB2AWNVz{
z^glwPG}J`mE)N%PLr=vxX6v4NqbabKI#~&x@pmNNoL|5HPXMkyQNg8zmO)5_pwUhK
z7o(^dml*bu%rIy++(0Yo9%mhmQYsZVV_abYF@J_qf0U%WL-ml&OtLJQ+=@ibJdC5V
zpgv|L;)-%+QTetrVV~@|(io{USRoD?MUGYHLyKUIp&7KW%j2KuC{$;Twu*MU789nH
zQ_yzh8%x!ymR75t!ZmBvzN%IG<Q>|l_I#5J^JHk?hu7~pu;SM$z+p<&@xQO*f900S
z|327%AzCy0?IFniwk0ev-v-?YrV>_n9!EQpQgoBXo8paNAAG$fx8J7MBWzho8qe{@
zpQmxZu$H8`Hd^Mda^mpHA17;_+S}0DbCpt+-UgSx7Or9OU%<t0+5cn>fItnPu-v^0
zvLy6BIn$B;1fU4KsjLWER-p>2!Xmxn{}``XT^+3>;UK08e*nCd{->4f0_FAkXxM(s
zyeCPjd*Y8e1}j-f&#-B02skO5T3%yK4bBGN3y26`@N;*Y#_#ys>G(C(6tCI3^3|nf
zGWm99(lswF)cvY$E=OK|Gr>%DxdT2|b6EZ;A!OZ&!CjP#?m#kE=U9M&8_414$jd40
z6N^g<@J$0yIrHM!#Epg;lhiyVmrS|3AqeR%FRf6_zyO6aFT_>c=xR5nnzgG-w`;yN
z2zkF=Qs8*503^-~Ib97KZ8c}9SsGltTl3*XNcgQ?q00&I26v*o>NWal&QkMp-9BE+
zk7(&}5q4pf%`YK*!(%ssM&pc0YQ9B)gIqn|NX?62A#!72W2PNwYPrUpbCs1e(byK)
zC8IG@bCz17@35b}bqktyqLq0^VLvtN2D|M<D+_kt<rXiE^`p~w1CmhxcDsF@2m25G
zFc!6kuLkT)c-q}vZFAeWuAcjkELpPUk9qB8PtvAM(suWYMz-l#jVw8moYd#nUxL&N
z<=7ShvdNu0yOTIB@c<-2kOToT{C4&E<#YMDJS#@U?Zf@aztNAcSK+YOro$vI{g)`&
zFvpojv!^17ie>owZh3J!3jZfW6Eb}|Z@Mj+EcAH!bNDOz@-*`Q3jHWave~F8^EiDR
z-HBgFP>l3~pjT?Y%$`^pthq2Hm&c#8Bwl?!lf^l$$9}K#=ARvZ6>X<1e9fbE$dZB$
zEaQ&^@-)g>$lGZ%E9ne=Rvg@N+x#p4;%hj$->%tR63?nW@-DYQG<muoCq?K#Z?ck2
z$}AMHMR1?pix2Hr<`NB8(X1<ye-q8}?Eix}#UT8@CXoe!yr?Ym9W6THU&Yf+`B7Tr
z73HejX{A$cV4glmp3$7;@eAup<T&Tz+pBcFDc@T#u8Xxot)os;-G`IgsJs&v=HsOD
z=201S#d3z1F-zvfLz+e_Hvd4`I(Ave7F_VJ&iEwu?ov5Nq;fnE>xPxfZ2rN*aV1;s
z2<LxdDIWl{ll*bBV(I%Un;Y(*2Dxklm<Lb!RC}3zoLF95vQ<~G(G~yd17sQ=k!cJv
z-DK}SAiabACzdhyn{~oIPN=tbHQ;vjgN52_R=>x^HwH`ZS;;=I7xx&j3D~cXZnC!;
z?|5PuW;u%=(~r=6|A<|6`ShK0bGl?j{9iWTF|x(S$r?OLQHnRVHjm=+G~1-_-;kpt
zy&OO%U!<GWyGs=uH*BBsY_ooMp(e+L5=!@RLhb3l3G|=Pt#=pe^w^?o07mVD*4Jmf
zf_-Ca7QMe<=Y6xl$0+?ppI9HG_6LUIog9iMc^+*)Or|&ffV(i@Taf5FF3OJ+YIogp
z$G6{dJNfxTHj@YS>Q3s_$Mj)zeDV4rj=^HuH%DKs*6+Wyo%LCUAItaymaVhC3GqX`
zsee)|Gq36&mCQ)6`LU_m0S)6Dkn1da|4EVcIl?|fszu*`yot)$^4-OXk6EvW;)53R
zPset*zF0I1-50LIcb6{dU8O#xMYMQ->$>XGu@5<9D6-?e3O+r4U}qM6ZFZH;+3$B3
z>*bi;zl$H!sNCdc8YYi&_nbqoqM75bqnuk(ArY4#ADsFvP0!hTMa#bk7fBYCgVS+M
z`*UwI#B<?aKP%$b_|rAJ{_E=Egij*tJe!3pnBQFgYF@eEx$F|(zZE~l=RsSepZmpo
zbL2KMI&wP=1izP?;v_u45c+Kl(g}W?<3t>eI-Z!Z&+CQ_;v$^p(ToYaeMrvWb;(N>
zYhK71^5X5ES~Onq6t54K+}qnnOS^-nT*w)u;Vj9D!=lLEb^K^HW9u@EicoyfQ-1V2
zo`=~}RjNnf2E1bukS9v?2$blMjUL6Y)#<nqUZ18Yb3GcbrGX$2G|_AsX>!^frFvB3
zPMyL$dex%~y7kg-5O>gJILr6|oa>RgZ+U79?D~6%5zK>>{f6E+R?A)Uzuu&?QosE8
ziEUrAT*`C6?7?_#jnJv5L}TnVq<vVb1@%lqJ0zpRIXhrJhmS1f^Wk(OZD%BGr^@f?
z<oxuXe_#Jz-93cfEX&z&u`2y@pny*`{y7GJ*EXX#T^!@YO=QY+Ya&bgXX2;$T=TfZ
z@X)NyL2kq32sf8KYj@0SwT45VGLDjqXHHn-r`q_s9kYiMUwrKuNkZAz7pHEuKD#+I
znz;zWaC99*#EDbcqSv@wa#|ll+i*Ni#p^1lWP{cWr`ddqCG}fUErEq!Q~<Q$Q8oW4
ze=JD!eoOyG2oXqdu;E6c;jZ|?!JS40mn5tkFlYe$;{X8%xP+PQ2*l{n>J1Jq6~h^X
z-Ypzu#?|VDgG9~Je$VpDkrfwqu<3g57)3R)isdd}Vyri%7M(2QR8w6s%hqg;BPnwh
zt@=oW(RNP?&2pt)x${h~+{LqAxyw|q+$W}2?rNb~PLuDoCg0DR<-X)v<%TEoxn{vs
zv*2m=Td&}G{GwTKtJjFb%S^M@*Gx|hhc}sKt#3A(h_{=mUcql{p<7UIj1KRXiEcs7
zcD&QA%zeJqEBH|8DY$pCDfLW*cN(RSdL_@Za;R7GBGHu-!Z0*TK5H5?;TO{@3I1%o
zk~i6lW{tk&x^jNWHO-KBn`;^a?~biv&5~uL$sLZKwMzQjTxwR{=LS=|DE~OqEczP7
zdX~mN<+JybUeU8C*R+WKS(X;MMf0fCY*#)P=r-16oJM-uFPFQzMa$Vzv*;$#mGu@v
z!}N-BE3S*m?YMr?T)XIIs$X=?^oEu^kkKppkj9zbMDPDtvYhD_jT6nH|3FlQR?!h3
z+`0>*(J7l{D?JfL=UI|yTCLH=Z@%5tYp~JvNuFn~dS$<1%Cd5!D+9O3Wjxa@3qfXj
zWx;x9dTXVTJblwDI~GP!b4ZNO*&^B`dJ>Ph6cFI5SNMCJmm5us7o1G_rY+KJxq#d9
zGEO&o?Gao?rM_kaUtU<A^9`|H>8~4Bl)A$|xMRsed(NIf>F?lp?G!)gD|?BHxO4{M
zR|vsZ>)!0lH)L>LNFZBCQ-vji<0JyvijnFD?hgVP90yUz%2i1qE2Va5lR1)X3deo~
zx<xf}VCiay5t<GTo(XhGG-U~eE}KOZx>dCR!_qw$e9RK)HfbpKJKA(^)$cKpP;`7j
zAxy#bNg!OY)s*D~LOyQ83`IC>8fPA-j|56EgJHZNP=ZP0ZA74~j$w(EeD)+zLeoyO
z-$cqJrbzn|<#B|or>FD^Qe2fZVPvkzs;Z==@E~DH>%<)bsZhaHHm8zq3PvDJ;sq<?
z6^#_MFiWVU+mgx^A`1wlp#0d?ghHCLq9l@Hmj?>zYn)J2B4;xezc5NOfw1Aaq>yqQ
z3?GwhN+gABbs{OTUxBpD8HKAbh;y;Q)Fzd`!l*u#B+$YRA!O3Yi=`EYjjyZ{IxTJp
zsI*CjTk)v0*xprXv189yR$9QAKpU^t33`|0E4G~2zk)WF&Uz9pv8|fGEdnj<3ON8t
zufRT{w=@bZdb^;|=27~{h_nS{2N7vY$nhr77ImO5fmY54v@s~A1c=-x(DI+*ta9pW
z(~epj%a_;NghD)nLx(&<uIopNh2B)oWh}8USrMePk%_Cr9U5_U+(RNpdow!3)#(w5
z80`;HiP74r5~DpMDlyvrbcy8&5{Y;X$+%QvwCPic(e_Iv-lS1Z9vH97n9g}i)G#rv
z&Z;v^5;0Xt<b<Bn#<Sc}5^b26;_3qxEU}Ony?7ca6BX5Z3Sz1;5X5o1!0otHVroAN
z;*`D6IdfwWtqh1smP8Pv7eXpA)sn!9gv*TFYmV9_$$B$Q;u(!Np2mE&j8e~W<ranO
zEb(sKv9hAU_w-m<(%^^mxU(#Q6)2T@8e=WLN}Y?FI_T8ZnKOyntkpL4`7xGSZeL%j
zV@ND@JMp+w>Y_e<CsGqzEoDW?=IFD=aqTsOu10Tz$LiEItzvMrse@{ai7PH;yfuMb
z`e%}?KyL8@^<YVO;3&c`<PBfwc{}KOp?M=LNaSs16oDLewqd~@S4dAnO`fxPJmb66
zkUbN~#cDbf*(3#lTug=4+(00Ig~%qZHxcsqV4`YW8`eRh=gNcj4o*7fE%=FTqWbmu
zs*R<ng@`+NGqvFkbUOgX5|sHCz58|tosqvuv17jmXuO?RyXh(s9<Z#D*X~gOnh{8p
zKnx<2UVvp`-rNj{0jMKEVAg2tU_n4oO)$<D)Cg@yVmGXB5wN=%SB>Ckv%e__;7|r#
zMz4Nqgmw#x)+a~Z4MJmJH{dmbw9AcRV-Q@`NhEHvz@GWk5Vdu!$0h+n(Fh?51wtrv
zrQIt!gzVNRiKBu5QMDvrA5ODHTr3F?jr$(IysaS=)kKfcw-D$->h5|C(5qc{xW`&y
zN0}P5!$edv`k0``P+J47phMLgA%L>!FNW(_Z%=!m`^DRx2MJ*vuD?eT^e)aFz1a)F
zn2q@=17*y2)_2wDBN(FLxE_4URljd68^$6GE7|zEoeyQWFy)DrhL|<vG$s(`D?AY{
zGOArIYY|n&SDPk!j8_c)q*CWA1L{QnNu(C%#CU2?ah%b~<s42Xhxl#-a%qdm<YFO4
zCl|W{I=Q$G$bh_Dne@B#=;O(KB`(~6UV8uN^dhLjgdR>s4d_MOxCuSPj~md-T?n0C
z#FHD)i@0(M{YZ^3Hvp)d0tNu$puzw^#+@4g$oO*#z_=5KZh%n5qZ=Spn|T9-Dn8v1
z0j`{)BUJI~h6u!YeB6m&ryvB~ICfKrgc(agY>HsVWk`pp<J=7(>Ueik2sqBALo_E3
zCJ-_X-V_23Fw7tzF5Up5j*mBl06(Z91a<iobmQg?AnN#e1Bg0~-T<PGr#FNU-cU0L
zL%pcu><u95czX)OWGC+40HcY&H^6A(@Xax3Lv6AXmv4$e)sD$doW21@6R&T8p*XAQ
z7<K%<DTWZn5W}!do49@hj3&O{0HcZXH^d-s>n1yK|ArVM?9C8E9wg8)ntT8Qj3zI@
z0HetdFu-W?1PB=Q32vJ&U;xtQ4H$s5`2z+ZZ61L!2;>tOgFs$^DG1do)&+q)15*&H
zf2{*T)%p$y)zj7iq1weAkaD&(1ret-rXW-k-3_TB+Sd+<$X7505qS%yAX`I?ZI7Hy
zK}?lRIm<T$F}1O6o`V61dH_uaY4RRSK}?NOn+IVEVyY)?UW6%#jC3#uF|urJzJw`=
zsby>PCk#N^JPI?ADxZP^;=IYLFhEiAD-2MSJPQL9H7L~(Mdn?YqR9LUa}*JrZ-`>2
zb!A?L0g95JVSu9KX_%tONFQ?)!`4;uHw;jeJPretP7D(s#eJLCVF07%cNoB^c^)P(
zop3cWjGFgh1f#r+Lx)lGKulnid=LW|H7~>fM$Hc~fKl^AC@{l4`68w`b>4^pPA7lF
z0H>2jLc#I&<&&5KS(B*AFEIe>=9w4(b@NROfVz1nCP1D169b@b9*O}_Hy?!p<nPT(
zF+keMPccB+$y2d{MBZ)sd-GOIkh=LR21q-3EG9_Zd=>+woxBzb(rABviviSb<hB9S
zZoZ2N)K1=uDU_1`VgR+92V(%Wn-60EwVM}X2a0SIM*H(*C{W`A`7#DrZ}Mggu-@d)
zm|*SZ(NM60L-{lYU~ltkC}5L=`85Qz;oxwd4Fzs^G~b4R=s8+>Hx%TdX8w&9ws>p1
zeqL{wN3Z=9>T}ADBb6)PByX~I4^?HfWXYQ4_5I5771B_CxmMl;)WA^lRSx3(y!w2#
z|7B+J%<G0L_PlVz0jIeV&lNg@+vXqmmj|A>^p;Vv^!|b$@CnP%JIwG()_gx#SYC~U
z+85(lmL%LxIPPVht*+qJ<r1zOpDg&FVU<6O63VwHlz1-%awA8q`p}AUxL-w6isweh
zp<8Z;C(~HF`Nt}}mhv5a=-j(oN2z?r6FwD^g!7po__PX&;?<I={E9)S({fQL2KDeH
zUum~pw8KNI`A+)l^b4LAh4+oSO*q4`YnubjveS|+TSu=cr=hTR{$+ZSKWaDTv}NO9
z*f`FmoE-U3UQxKYC~iZA+ht1OH$?FpDg2JTQhb!9hhjNaSjzX1C_H@>Pha5)ujWuV
zj&wPK56AI8$*KROn)xXl$GRNBw75>i@kXqZO!x+xe1kgW!f`9!x3ICGu$*971{KGG
z!tF%2VIk$xzlO{`3Y$|+Hob3zALVj};G+3b_)&i6x{U|niyqg;h{ELp!zBPN*KtA8
z_Dc*WXDBKZt(bUDi^A^{W>h=A9M1Q(Z-c_|uki5GU}9BQz0aqOJ?UcWx8C5hI7_7}
z#TCW`yYSY1yU*LP$0WP)x9(8m{D-#@Nge-#;4$JnPP5+>HrEI?0cUeHCr&0e$ogEz
zBsQOs^&y+vF9=3HXY_?+WN#5%#+(cPpJW=oBAe|SoB&f8eM2yET;Nn6IZ?RX^;x_j
zX4p)+z?gpd#%Pn$J+fc!APSGd=mEiK0*r)PoWkilvP$>hhNm$4fl)QD=0va9Poz#z
zHz5BY`TU5JIfc)^m|51NTAsZl)GbTt=NjL`Q00BXqSar*-+=e{6^^cJ2G%B%6aM24
zl5GeM8pp1KX4vDPaqK&2hB^+KsL!m*XWS`<HNx!YgR9j#p*m!yIEPHlN<8{b;Wwl4
zBQH?qD1KhUPwX=&3>k`{TQj7Z!3Bn$N7a%?43~+Kf-G^W&wpH`8&aiWoYPFO5@)h!
za3o9N_zS~vME80=A(b8&NtfUaP3e<9Q|O&+%8X(O6SO+Oh@#YCh1PMhQA$z$GiZ3Z
z6lNKQ*;w$RDZv_FE4s(~nZk^^rp?i+aStbr6jlX(=n7sZ5H&<$SfU3Qb*kE+Tk!$%
z|0t|p&^rH6km~f>zXp88Xu_lmt?e20ui-*IN)3Lak2jp_D#qrVEhrqfx;wWdE{8-1
z*nbf`#+=7#mQh;I9iWcEzze!G@wvJVik}1g?qt3Mg`11ljoUgB>*AThao9VaPT_h0
z!gz9r=*o<n%G4T9sgj50J8bw8O|9!=)WrXK#}dj&c1Nhg8%MZHuSLELh1(c4Q+=!M
z2cvM(J@R$Stuy#0QrW0IH9<{^clDhx6jmp_V+*&jnRKD`=UYD4eoC?_r4FYk9RNm<
zE>GcfhOH7DgHjlsV;K>BjP3<W)i|SXB8Qy9>JnS0`<#&&ebOJP!T0KZItm}{gI!1v
zAAgrunNk>CVHgG9<AUmpaR0_|ns83H;x+&ZtN&nFIYZ9tTay|^;dk9<>BfBN8f_BF
zy4<}+Rc7$LxdMSwlN<aB><1+9oQXV83dhfAj-KGytXU{bfAn>jdrt8lx#%Mgarq?S
z$is~=K~&xy|3PV|DY|n8!aHyZ=?4^sGc?1XWq4DiJ5U&-{Pq*Uljz)bS^v5S<;<RR
zp%LDkrW#c5xw{}Tq`ETQN1PMAWk@|>ahJFgq=qAPg&ylKF+3`dU-~>Iz~cmNlA<tr
z!t88-(`l45(jkPKAnQb4sjm=q8UiOcA)q>F-4t1^E4XTl!YD&BA`jtppZyEYs{0@)
zCUA|c#%D&{v_E5~D#4B#qwVJSbyCBRJRKLv#uPE16h<XtUnLpQ_M{tqK4ZbBB<aQr
z)<l@Z+qtjEUZRGpxxW$B@`01EdS689E`{F~SutwRnyc%+ceAzkkba>|8^dvLROI<K
zC0M-SMQ?z)3?ram-}bImFXI%EpP@i&?v<c#<)Q$SaMtdWhH-DKz(rC}rkY{dkBkWw
zX_37_@BZ|X(w*K_FYXly_r6!RuNh@S<Anz^v_-(&=tevWMTk!Hbk#3g`=>Ex$hWHJ
zO?#W=GRrB=vg+^01qJtauSTPyU0P({>qWlKvNZ+yw6~El@g)lIO|Qr|*$c&R_&@ta
z-cW{%zZW-1n$tu+WCHZrV$i|Y@^8U0-}qEMmqr*k{-Sr<!R<bjCVJL@E@w*u^eE`v
z*nHu8jXa)HlxB3<t2EyjWzdhl_O2h~ks}3LS7Ah|=P6t$M^Km1uilY*o5wE{`8U0d
ze!H0xfX7a+uD~HV%D<za|J|$PcN<JpzXJWx3ypJiDA1b9qU><R#<n(S1wnPjv%cy~
zpdWDQrb?C4-m!%YNmQ`68rY}^#1=d7d-eW4-%^0jdesLPgr`7%?ro0;aY-`;`=8zu
zK8_8Et`u;z-VcPo9_LDGbv}6PHJ3!Y6Xd;J0LU3-nwm^{Rq}zfjhlSxRmmUl;06Wy
zTQBrKa0w~}x@TwPU%@*tgf-p-v&O45Q9N)&(8S48@38tF=jDdvV3@pU^ef9L{d$7A
zbtt&tKTw;Swt@EVZ6JuWUdxx4@EjYVpHDG$m_QwHOYXK3X9P}|6?n_(9K*@+1S@ea
zcoroIf!_tXW;h3V%c*Da4|kJ2@ByC}07TG+OSDF#Jn(HrKB1com-OCp`U|BDL%|B|
zg>Ttiq1X*1J9q_y!0T@cFVq&U<@FytFXXbbpI7ICMXB!UEsF$B*O*$3p;DOjZp-He
z)p~Blh`JH}j2>LL6O)$Hmp*$GoJ?U|Fr!ROU(m(~wO(y&af@!R2YCI)BB#z}qoU#9
z#!&);ulQk#+zqw7zM-29w}5Ur-Jv<**3&JgdtFWtW$9lMxjblc5w~y%Cby&s;yX?o
z1Sg!2qviDj({dxhiej;UV%RuN#Rp!NATav}#cU{<J;;YF2<-mtv!?DzL9nC$>egbx
zN2hm58=^;U67fUF7dMGOv_0}3k+I64zY-I<9~}-(;11~1`U+_BwPTYmduw-#fZLb1
z%g)^*QxrGc)gm2^ovTG!u92pqjO5c*-g$($L9SJm1IM8(&$G&DaRDER_bQ*hhWl<-
zE~dE31yDKExqVx~8IF}R0AA$P^1L@nV0bd8_?G6A{w(A99FcITK%e)XT%S-J*7N?u
z+S3Se7O5bA?+@4Jn|hMaICYtTw&1+uin2WRD@#gJmfmpA5eFt>YoxoUG(}{+0SRN#
ztu*kH{#Y;4c_iyU*yF%7nfs4{&$+#gD2ImZ-~RT<C?kj=4X$%8eqX`Ui-bYMrW&am
z3F-8T^}51G0@|fu=Ne+KRuKVu(HryN@t&m!y*TTSu6rhF`l5Fbxt}Pf0*kNxxD+K{
z^o}0)nj|k~lPH|!gdww7=qSjLB7ScWT)>g}|1>4(4eoSFxR0a$&ZH>GWB+jZlG7yq
zTLbwEWm<Ub9WeeaDsw@B?j1A1*9|L5TByMz+AW1kplXNDqedj$CZY9fe-P<sidlK=
zA2}p#SqA-aYP^}VR|<CT=m{>Pl8oLzg6`NVrXcrUwS2dv9G)-#?T;W^()4bL_f(&V
z_iqWqXW2V^M%UzCU1<blQlkHt{ecS{nAG<1NJC#JgEKzUh&Y_mWbWVd+{XzirZ&FQ
zxc(`ck)ZJhe^SdynFjG(W4O|$|M;ojc$K7GVO;hrBPqD{S8s6bxbhHF!1u@4KQ<5I
z!0EKOW*7ZNPS9b3TwtKCer`4ASO2ZjxR@2CrFz4%eOwN93w=N*;T%<FIgCGN<r0&8
z5OlDSZI8Ngv2FVVKNFtD!~^Kn@kp}KbqtRS5SnX+ZZ2wcLyC^sz&tb2^2xMDxVS=q
zKEgA6v!N~`Y^$?A-t*1?uA|(RjMn{YbgTw3*6x|WsGy9>95pH(!70fK%q4j(v*LK?
zjH|vObWDL?fS|8kXzNjGjF}1k8Lgnh05@K!F&Z0u|6gX*0N<DX{y$qrl!5tzZZO<r
z+}7b0!)XMZ5Xq@6o8RaP;X>eBPTT&u@+zeSwr$Zf7$$AHt-ycre6S0c&u5&|&EAkU
zxZF&{9JDu_IdW+RFL4*)Yg}@efei7GIO68CgH0aPP42kUs9??@6lj2<$Z{b2wZUkD
z<qx9p|MVV(o;Qy|Phfc*=SB4>wno%~<Ic0qG+`m*+BtV7=i;vm_@jQWdXlo=WjN(K
zl)*qoX&_`<DzXJawwq1)e@DD0MZ5{`((Ij@58JWhKisi$GehXr@t^Niq-;-$Y=6E>
zTjBm$@3(T&){Ji9XYP1mC<l62i1(~&fc?fxtr*nE-F@`k8A&iM*oyDP_?M@i37+d!
z!ZH3Ez6;YVWvg|$HN>49!WH({41BWS9W27g8k}PPGpD;ye&~UAKtm2<t}5XRM4eVs
z0Rd&0vR69wL~s}Ns4%n?{)8+1g+zk49C8?ny2>8Jl}ZPVZbRN^xa6&Y65`B22xq{4
zN3${n&JLgd`R6<Sv6g6<uoNZBRbv6#wml$*KTEhC`e)*&_>AK8ABEG7QeGXb`Y>A;
zehiDjKr9J)Q~kP_h%eB69|-}z?v(%;x9GTFEE_ct!vTt+<e46BkOQKO=khM%`cC5d
zZxq{^!WKJGS{nj$10hh84oWI!B9-NVxi}<?{gL^oup+EbtSQCPOpZUN7qOvWmQ~}I
zA`WHMX05}X3<ddfJ(ieCX1U8&$K<g;qSJPT5!5r)`>RK0BE_H6jkS?jmKEdqpfL8e
zB5!$lf09qJm(P1@-i9iHjqY{i_U(C-m5htAt`~Ul?N|6x?s8E$#h^AIVy~`N_RZ3f
z#%(OQ$=vK1qO4oleSsz}kr46MdXTbIwUCiWdv^A-Y|S^~R-lBFpchJ<VT<;xkYu9U
zcpew)B--}TkIE%yGcTN0#T@5ed?&87Iyk6?i&g2Lv+3p$KJ~E~7wafZ*}Rc*d?&x~
z;2&ygv>&C@+B7c=in^;QlH`zkTjtdH@Cr)l3}m_+Bx%-OA3Qbq$m!IOT1lsddk^T;
zD`rw}$fu-J3k9Q7m#dOaUBWv8cxp#dPa!;kPQHL+M>=^tXK86b4o(d^c>=F`8jxqR
z$bei-8+7vLf+Y(&`6dmsHG$l%)Fw8g7kX0|(5G;^MyFqio0RGF++2hig?`wyAKVs8
z2LL-A#tS+C7+c<qbbv$*z|stW&yREf=!9wZ+YEq9K?it|Ptg$oJf$0Hbx;u!W-0@%
z8B~Na-_jB4&>1>{(C1Y)H$>PJjE+!WJ#B&jDxD>U2;0(7hS@U8=?E~chzlwOA!kKt
zhCo~zDG0A|VxUoZ^-3-s0csGgO9KS1(BWf}P0bMCt`{=|GkpLAzLheN;iY<?lz<@r
z2%|c_hYkUIvyi2m6&*s@TE6g1j3G#)ONB@>(h^XGAZmpQK^)}1vJeF^=n(O0oly6#
zzB2Wg>4ks*Q4Ar>niJ-Z1%#c^Az&ZRaZI!mEH`y)sX$P7XbMCQ*Lj*j6!3nP8AJ*9
z9?~I-`dxH7gq+8W2D_NZAZV8k!GDG`hz}w_jM_<n?^?Er0miJkMVgKwW|9qDk3+{0
z<}-p^ZBq<L$1=r$v?4<csxzyD0f{Gu7*wyAia}L%6@%&@Q!%JUu!~X7mWCK>$jdXt
zpju-UgKA4vj18o<8DhLHV`DkCW_l{t3&NNgVi@X}T({&#_Cs#|&Fra|t;PLzbPQ1q
z>S}VNOtyx0U0@j6Ab}CX3%!OIhWa5eQubmj$67ouYm8xH#{>p-NvL8N+A&y-@ruyg
z0;6_0w%$yWcxHqVPh-CApy>Lza>ny6p`R#>l|>y{L&nOgj%-54oh2Ep+6_UbF>#_&
zL2_~LzcC10=x+#OrC~SX9&tK|bU4UF05V8BYr2LYg?Nz57{sh$Q&vFE2Jr-cTsvDq
zMX3IZu{!-uAu5Fc5>%sDT)QYEg6JsHODA)!=_vA`RrqfWYP865#?1+JT@rMUM|cA*
zOi<(j2l4DMXyZM?f<3NiUZNT$XY+U#abegq9Yt(Qc)eC}S<q3$tX@rJbd*<kB#NtD
zL^}wZsJdGv*c-xd-J^P%C!NDZ^5i^G&!nn1bMP?k;LY?*3ZdxW*pjErw^Z+mJLp)N
zO-i&iHBRGBCz^6siRgkQoxBU*0H+z_X7Y&fX`#Ph)eJ|YT%$`;JJ*q4Fv&GGxu657
zlLN{2)Ie>|6P*fgfrvXtSB=r))0MEzl<i{!1cw?hFsLiP8mRRTP}R{<H|Nk$M9)bL
zBxj6fln{Vi)m127s3RV5)=0I%uSY)}Nzo)Bm;sU)9o0}-86!zOh>|!e=txy#m-S6G
zbfo5#iM$u6krV}|T7kDnR5Rf2I)A8J19!N`RuTuW8o&oHfbdNZ@ldOVQd^3u=0nxD
zB=EB7FGkV?Z%<oMd(hjR#OX0wuD?ev>i*dsz1eVrRfzd2iZadYtaPh^O}Br;aXqg2
zYNcE<@!InnyGk%U!%ET!UM>o!_0vT*pljr5OsCCPWLi=LWxKV|qivrw3IzSlrin%6
z^%nX4#yI)P3Qi)wH^vc>7$!KL;#;)=B-bexfFN7O3Xrsr7J$Su)drB*eAxhk%o;mD
z<;sp8$rC9PAYVznv4SLh$~KTh)RY~h=E4zEB$1|L2MIEEtRTsap$#OF$72Oar1Y2}
zjnwQOD^QhJ$O@D=p|b)d(|@c$$xI+KsBtGL$O=}KA7llqa_m^as<MWxVe##z6|5?k
z$QqXM>Sx@^Ffzjmy2(cNz!GLrGUFx-b{yI^!0N;#D`0hwl07g8!>|F?9L?DQlSxeW
zz~H#g78s;9SploFoUDO?SKk_#`7$-=ra@T&t23gkfYr%SR>0~!DQjTD+iwfZnx55(
zR93+1oGLT0$xeEe6|^SP$_iSObY&CGbg)l$QnBoznQPl*Cqc^!T9d0~1x-2Hv4K`+
zaM?o>0$M|})(cIFmld=o+sg`CllWx~&B8{1vXc&G4NZgrTSJq_cQ(+Pd@(C%P3o8x
zv?hzp3R;s;W`tHpcC@)=R^Zw+Gb?ay#+enkHu=mV9OR){goBhcdvNCd-Yy&@s@a1x
z_aS%S%*R*<&fJ^afit)2J8<P}X%9{uy4r&?pLDvRg2wYi2TtU|*@F{larWT0)<#7e
z(P9tIo*FALMb_Z#%@u88ofSAW+{Ff5lWu1Z&Yt;flkn`p+0(l=HP0TL4Aim-XUQ73
zxqJ5D>{;VBqt6Olo7`s$uFCT>gLB@b{8_<Mvj42$DT#nq@YJLOYj`p}&>o)56tsya
zGQzCk+3pXSN@xX7$ttvhrz9BK!;`U+Hu0?WhmwJ41y4yvw1U?O6E(qe-=-*90aUXU
ztpKWti*^7z;lvgI)pSNnfNf@@6+kt~(GH-J?`Q>3O?|WisAfT00aOzr%>ajcawF{_
z)@hPf5IY%@RuDVMlV*tCzC22MkbgkRCcDxKWH-^$3S>9u(h6iZ{n8F(Clk{OWH%|(
z3S>7w(+twzo2qFAb0=%l3g%7%r)5kFUI%|~TBjY%Zic57%$;OUJDA<PPb-)^DWGPU
zqy5>SRzP>NjI4m}=7`z>-ANa<2dZR_S^?cnBDDg#n@?&5bT_rsHmC&yHQJwWY6dz!
zkb7zc^-UV871TEwsdi9zlT*!5gF|_$R$$+zteU}24rZ?!;SL9f6IsoGhevZ-jj%mO
zE4|f>$51oVwc_%>z(Ns;xR(Lr4|v+;TWfRLI24`zNBC_%#wlsMlak#e?WX%hBa9#p
zw&lnoq5pnm*~UPy_299|bozh+opY|Pq@!zLgS&A2`Z%VSg?;tQhr`8#mlVKxSz?MT
zw4&uV@mu`$2HjkTqYGddIl&P~VMMTL7!P=XvU^GpOvf~^fMIWZGFnj=<~hoy?7LUs
zd?k39j{*n$0nVrzPEkhBuKL$9i_Wg<-NY0Tn4DX8$iI3Z2yG}AHs}#xI2UZGgkxI$
zxhxhJUxJ_izWtfre+PDi39`$6xs<?|7G8vt1Vz+kK~w>_n*q3pe_XQ#{{XMROA?{N
z##w~yTlQaIgkUt<mzNI~x(}x?XYj&GVQzhcIscrAo3sRhf~)&sMsdiRjW5Tq`^S3-
z0LV%F3Mn$I9FhWoB8ORqri0Nau-uO^W{gNG{$=q5l6Zz_oFf0GelrTp$tUWDX>4_)
z8IJwkan916U<IUB&q}a(+|x#Dm{$a+<$Q+}lie{G&e)frgq?U9c?6YX1}X~1fcR3H
zuLsQoy$)-|X?}ua`2EQ+%#LjMC&@;(&c^T@*=X0L-{Y$+2mAJfTfwycSUot&DDK%B
zrXOhp58WW1K3!)dwh8G@`7@X#6BsT22ix(^YCFX`CGd>n9DD&X3$@pVs+4R7Ga6sk
zH30i2Fu#M4?P%p|qZOD0j0XMQH96bNkTfuFuLVDVPuGoe`EU$=w<L6|?T?p;LwBY0
zbM{DLYifHIox5j22xKN|7?=*|btRD_TQ+lK!{BdPOAbm)9>0Do27nXP8;$L4QyJDW
zdm}JsD+Epw)aib;qQd;}k2ODF-_jrMwecU!#s{CSC;Lqd9@)tUfwcg?Umo_F`3KF#
zVSYXcO#E3pCA9Rmb6sp+jWGt#IL<gjF{loO)j-TS^>AWX&jM9}?wQjyTp`?^=9^jr
zJ}?m^h^irQf-^-#nnEQ6dSQQ+5cBefASFax{)nT5z(h4FhQLG#k>h1Hl|)oa3r?r<
zVbzdK8Nx^1RDw+7S5=h+5`y29An7tuRUzss1f{Af#Z#gVA<B^DL>^+UM;}U0vTZk$
z2CcnCKDzDgPYLw0L<NndZOP`K8KgjECOB30sA4WE*c4O#PdXb;V}v?tbEF5;>sz9y
zmguQvdTPvybzsbmS>0L|NRlvjZOUqL?s{$N;7YI6!eOd~EB#OhSDK<8j_Bc-J*we6
zj+?-2t_5TXHFbfO7O+5RtOuk}HL36GQ%Rt|u_35Q`fd54iDbp67LpgCT1Z}uY9V=1
zs)gjmsV-949R0RfRYVRqidH>nrVXu%SS@H(%xXcaqE-u96}MVYqOV#NyIRny=+%T0
zZ745-)u85Jvlv#y8e8?P7I^nWL<!u~yNY0QyY5v)TRVlU7QC&e)Zh-k43TT=)rGoB
zYuUQotLtl})=H5iO5BMOcc#QGdvxKa3zgFpzu5tlnrBMQnO!S2$4ap?gH&nGOi`^l
zQEI-N$Tc6XD_fQJWkIXh-co5_maj_fS=GwhKlY!9_MVa3_pH&F1}5<CtL84#DUp5D
z8?kV#Ied6R1ck*IH}|cC*&WK6ub1ZBdDL#<ys#!Qb%L1Q5{JFRO_!99Nq8XZ({#!6
zeLt?l^_#fu46Uei3>{n8@nhk?b?ytsu&YXWM&LYUZ+b_&x?i6~=K#av@2_f@HA~N=
zWVe&6Q)+vDIimR$N=~pU9OD`m4a;bA&J~7aI9n7Nle;h_Q#=t2l_kl81U$C%keBV|
zSC7^+yj{4?HE>{(;K(f~iL<$T&tEjfh7?zq(?u1o|A6@~ZAJS<&EQCe8wnzDgpnw8
zxI0`|GTbLYxUMkVNDzr98HvauJYgggK_tFpB&i@0Ut$RRY>GcNC5Uw>8S5`WtiuCi
zZ7sDsRw)Oww;fEuK5dZ|ZyPF<%p4YE4jz~}{=k?Za}&u}p9Qf_4vV#U%uEn%beKwe
z4}(BwdYI1cqi!2gh8JfINqyhT$u-|~4+*89fMF(NC<F|1A%kc#JP8?A0)|+~kO>%`
zg$%KPVIgFA5-=n}29XJ*LI%-{%7hHR1PoZnfCUV>kl|Ut@FHZG2^ffwVcNrR(x+>U
zLG^eoV5Qty9+@`k=Xu#Beh%4|iKh8^biG=a?I>xSZ3&n6&zj<DA>@NJWE*_QE+Yto
z^NZ5JYd9QP4s)=zV_sA@LNdPcda&Vp49B6|Hay5jcX`)Vd_+3U@YuB^qYOK*A11gw
zceXC^TRu8oFAi1J?QE&~_Yp^<hfp%a=J1O%RYbc7Tw;=qIm|A#tIY1KhQrQw)IzYk
zLtsR$f9|nVH6gbZ>RPp37YuB;y)SW*C-9ft&~NH`2kAPu5rv7ms(+BGe}mr;xkf8>
z;o)Jz-<h}T3B!Yg-GFT+M0R-BQ?PYdz4_VJ(*s45J5;aVRGkT4p{W(%)sf`PUOAIQ
z=3R6oDQiRO-B`OgFR$p`TmEt+#SLQ@QVAz=St3=lq1n4#=8G5Y=`JgQDiGk;nxzQ`
zLv;ybb2~bX1RwPKlS){<^U8Wfk@W*LGwVb#*y|X&;xLT*kqb8G3TIN@S!ET7`ayYE
zagXR}<8vBk^mevbHOZfOm*8%t(^uVev+UXH4QJ;tMUUnEq0BaqR2mJt%$;<e<T;x#
zPsCZ(WJB;DrQmsM<wE=ic-p;L+j8PK6s-9pYzx~wh9sM1D@)C6W~#FLq7p&|4YuUy
z0?B;+$~F*tfW(rO6fcxbcc0Ve=nDL2em&pL)wQHMdUsFm|D4@k!5}CF$FM+H@Gzo9
z8N{y-V2Okzqv;rafv#u?5BTlh@51M58p8CRJl_hz#RQ`~hmtDNz~u<`VHlgI-}#2H
z2PFt9f=IKSKqZt4E%IShU{A&9YOV5@AzTq7yCL|LN=S-Q9fIh^0bnq>AsG>ZEZcd7
zWQ%f*6oHKId=Ms-DGpWj#Q0u4^1#}%YzWQo&f%W+ANvx>60tpa(-RCH3?>-m92=LH
z5Ggl&L7xq}H6-ltfgqCSTlWCY4*)9;@RL&~_u@v|1$r`*@Sf=Lo#46*MpeZj&bf3X
zIPaSsNvr+sfbD*@L&lx4YllrGQP5d=vLrbzOu>X3ye=3o$w6KAh0m6RsSEY8BWcyk
z4%n`j9WpVJP#`zi-wXEK6P?^wWkPunEMCkCVp@i>l`{uTq10Jc&2!EidN@azMWF|h
z7z`(&LF|FVM>^C;I@(7%+DAItLpl)+!qfvx3N;(dqP@hTeZ&H)@#BNW)W`!(HHLi9
z_(_U-N=njSWN^KK_T!EA<Bj&?&Dr(afyRr)<9d=9p4C|U;fb5h@j#?K5v7^nMYVM>
zTzF0J#+eEX*ulhu_AW#BPZPXG0^!4!*Ws?ECvH+7&M_}aniJ8S()&Tf@e!3bLBm7g
z`VmB<C0XcIZ4=BW$(N93ka1>=-%^zKV@V4t3#9P+{hyn2gd$i`ZVu0sQDrnt$6Db)
z#swxYGe^h;!W%2BIkOHxCzMILB=GfZ4S#$SAB62|m*z%oW(qzt^_r{Zb1gSlH`9Or
z+x=BM{D1&+K|oc{SP4XxOzYYzF4Ecl3t;5AxiNT@fy;H(Mcv56xtC4;Fui1co_2cb
zQHJmhxr!7`qgC)t-l5Gk3`VanI}yw-1dw3PwnQjUsh<XZ3#w?2kvOJ)F7d2T$qkid
zj$W$odx^+JqGxVBo$90v`o!~zB^ZC8KL(h<^e|K}#}I#D3?_m}jruMK>8K`es~+S2
z)N))|E^>B*Vd{^4d{ZqvEpBKxi-PVf+E-=adB!*qSlZrR51uQIOr1s`9~4J-OrF=y
zY_)9+UU?)x)8cFQ)%4wU+*q0CW-k$hht{pu@@D&Yyjp#fv~LK}abohenfPq&Nqt~h
z8w>UU{B#eXZwD1Ne^odQiyGM(63j-^CYjRe9^NUN2HHvI$x7931PWi=CtfM5`}a%C
zxF{!Ik*JO?w@)E?+LLd+ke|0?=ZpKqk{8Pr-Kl{N;7$wua@b2)pIH6}=&kJAs27j~
zc-p0v+m4$s5Qfz^3a2c&Txis$+D28YN^NgO6EoRZfQ@VuvTt8Q5^bV(rNJvMjL>{D
z<2n4m_s#aWb)}Vq{PaXmpEv7Ah@#GD0WAun<E%qtDT;O|YTKYaK)>0#^HbXT@niA(
z&+w)F@e@*^4W-hN$+5!DpEmD^YTPxHf4jV#!QvMr)|tsTipm3;jjE&|yIvP5e1MRw
z-c0F@NV5VhUjv<B_u`0OgB7X1C4-Ju>+9R43Q_!8hOF>j=idJ=Eiqp1{jIr8>OH;r
zC%3Q$ZA)Ibc;9GrP|0WM?4ro#u!+#RrV4x>Qa#Uv^9wvqMUaO~R;1jOIeujzzD+SK
z%idV+i)I}fXJL@;5auBs+XM1k_aGNZLn;W&#<GRQ%*Lz((dkPN`he9Dl?a1#v=Dyb
zTw0*Eb1xIknaxE*xCiIwQ}LOuSHevj%V!J@m)YktgEoF^3}MY?qMIe-LzVv`bldtZ
zV?%dx!l$NEj|mdCY%19`TGX>syjLwgHpvYr?Z9_!2Idv!;8ogoc$t0<mNuiXV*|F|
z@8yZjWww@GNWh0{K&6HM)Afdr{zu8VY`nM`GJh)PPxjoznZuf(S5Er8X=tP(&<05F
zxh@jPpPY2OAlEpX7J+R&4Hw&bk{Yh{a^5m7=XLNpH(dMGD3B;T!zRv)hl;J=tA<WM
z#%S{wB_S)Mh;h{mc-pmEYjdME6rKJfW5C8Ali10olV-Qgc4yl!8U=){7!c9JN&4$6
zFl&RsK`&2cV&ZVlz4z#KbtUlE<IUslk>4=<hVLHG!<YNj74W>0k{IMLreqqWFw34{
zy!C<|%y0rZ0ysehpInFFH&7G&WE1cS#UsC-%WuAuEh?TkMKFKl)z1yvUM;Wx`S<Pj
z{ONBH#DpTBaXRA^V$SBbl;raDD3zZ;em{{c2ZPH|gYyT>5rvt(Eeg~Wa$$B+o8A5K
zd34jRoPL4c3}68OX21wDfbx=m?6Jz~OhNR3-dB_o8n6-;=I})<zXnW7z2{&zBmE&f
zG>qrfVN1E;b7lg6{*XgJHWn_{251}sCejqYqr?C$Y|zuxpIX6ZfejpcGb^~A^VrUL
zVduQCb6!|E?_+NoS>Yof3Jbijv@h)J2UWkfBar%A5mbHOj=(kqY#jo_{~?Q341}!)
z!d3%etAVi8Ago8CjSHc$Wti<7(uzV@Qyfwr$r5i+yfq+c=Px?2W9p%Sni;P65knjp
zSzN>$NMS6W8>o638g%nDZ&C`j0lfOgo{Ph++yWGZy<f+?)tuub7iDl%-=Q3op;1`y
zB;WQX8Hwc<C;^b`BJ*mbv~yNf<WRz@jHQT?Y-iwbXLPAzUI^AybS8>73QIjuB&Qw&
zHF~=Sq~7g9;7y*0pfS3|8460sH?|~m*>z<X&KjQeXb_9K-+!kFwY#nk?sPU<>-gUE
z;}lcILA49AAn6Sw6O!JDG9VckAo?urey@-2bxQ+^40hWD>rjMul!(%sR2>7v8DSPI
ztvTHQ-R{>0@M@8kYl1n!>G&|9SR^RJIX*7iCLDE3kn*rxXIdQhRei425C-VZ>~Df^
ziD&?yR|_7677m=YWHCBRo*f0s(4mD|72IkrRY<3eltBiXbcdBH%CrS~14tQoI%;0W
zf#2lzqdinqA#E8|F>}a3mDB6Oq^bD0^-zVK%Kxe}hCZuy8WQyjpN2%j5z$aN)Rd`T
zpEG0{D3Y2oIg1WEi%vL;PB@EBxQcGD%xX$CP~$PA67IYb&b%5f$(nKvmGum{1`D;O
zTn=NzE@K?3Vj6M@hk6NzdI^Vm33qy(DF7Ri35R6o%EE?h!X?}JVzCilCvP@mu+6Jx
z_8FCv{H|AH=HuDr>F!b$(ve*m)QV6Q6YaNQ$L*ssup_DBwV26Tf?`1#p*k=*3-9mI
zRNF<$wV>ULI6Bbz!D>tjjthY_(EcPr&thFG1X7H$1mF}Dl8E9RZt9q7RAEYJtYdpF
ziWWrcz+iU%Fl6f0&jngTj&}%T`%%#tF>8)!uP@owEaO+BLI+o)4yHbJ*_+lu1J)QC
zzLhm-Jg9{EWj!WYhGOnb?+Z@uE5$gW3oQQthh6)qGbd&7wjcLroREf#9ilv_!f#$$
z-~RMp;MeUe`~pJBNMe77V*dw<>-dh9@6{@()M}jb^cqFUqv{QK?XSH**&W>80NK$F
zoE^3kPfTSx-&07*f`pPXSXRHPr^eXy0>;L>rGF8zJLei5NqwCt52u0W;!ATrUt(5f
z@S}QeYy?(Hs@n-KVJBQx^LWe3?6PCkY-B|G6Q{ba(WN8qPCo6p7S7`8wd0jyqNAtP
zwLNRk)1~q?2%DK_rDa9c_gfdN13Hh;21@;6o}d(pO!7CM&EJiUXZ7n5I+DarXa_V&
zELSX7*-WZ-!$3!~)b!qfj**SV<pA}CcYof}nbkJhXVyAl;LC(jPg|WZUM^#(K9M;w
zq<t!^H*&TYiR9PJ)`?~7G?rfDXBv^{X*6=K?Bl$wSMs{QTBkZSOGmieO=LaAa{cr2
zbM$duF1|s^<^F#4Iz_LI1)_K+tJfaHo!`R-N_)3^VwX;x?$J}l^Ikn6s7bZZCKY4$
zVf3V7ra`Fd#2uUH#ULz`>oeo?-JaH)G`wGFBH{aIApg;r_^>zOOX}+Le;2_Mm5&yj
z19;lalxuH-FcgNfe<X-pJ__ROqGXvaar<&oYK=s0w)K+z`ca)a7A_hcTSy2g>3g2O
z=k0+P<ZVXW0fz_M;BiQY1LSr=QBsx=h%jM^>Iqv1V;Bg^aA@$g&r=+yZnpRUhwUry
zM1_Dk$6@GWvMf_FPfELLrFIadbs|%))t*LCCdrb<W5FnnkS7k0!<XHj{r0|nipH;?
zk%UoAmeB>nf#3#7!jKZ7yE{SS*<Q%n>r5D>u1@#M-;9~^P9r4t4hpO5zgt~V`z(o&
z?1M<yPdlu6_7mi`9Fx%`lQgE3<FcUL*CDgip>ul8=E>|Hl+jpC(423SS$v}|=E;wm
z=9`Bbv`coa$Rhkl7TKsYMSf#QS44?44J8dK0{N(&i5)bfacRW`<_m2gU-IiX<~-+$
zabn&z2>pBzS~mV)KpgT&SH#o2S3GfHJda$PQFSELJcgnG#B>W>U_YdLfhqD(g$Cb1
zD|Iua&R4il$tl_-O08$iM1VtgmAWcjWqVE~YJ17oHxx21EOhD+k8i5>3DL^)dtyd-
z+KUhJD|0S3H?7DkFSm>^Oe%>tG%n4{OwLb9jn7O;%_}i9$}Enr$V`bZE=epZVT>oJ
X-V~}nIX|x?Gp{ri0OZjmTmS$7?>Ze)

literal 0
HcmV?d00001

diff --git a/default_7918707482921890665_0_17676.profraw b/default_7918707482921890665_0_17676.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..05009cd1ffdb9cf53a7d5ffcdf8bbc5582e14975
GIT binary patch
literal 398640
zcmbT<c{G*p{`h~&uw~lDWDXfqri3U%*d%iiGGxd+W~$6#i%iLoWS%mXIkV7KVw=az
zvy?I`{663HIrsUk-~C;`weEGDe>$D_`#jclJzv*-?}1H_yN!#xtK$hd!T<h;^FM#~
zQ~l?^{O6Cc^Z(z!BmLXk@&EldrG6iu{Gb02B+y<j3OqS^w$$0GAMk%Gr~dOl(f{Yq
z&&3a2eki$|zeu~0T`R8iH}IF~<^S`Kz7r@#CibQ|t^dAYeX>YR@?ZZy|G)pgKL}y}
zKvh}nqOkR4leNj1(q>)}n*GiHtP}R{!T$<(IJW&?3w;u-{l}F=#>tbGSBubr_6zw%
zf$5K4QYvg*;1C)Ux%`175TOHK&qq;N#W;yRkspD@g~RPQF?oazd_7NHxlp;x1X4wz
zPkv-25d@(SI`H+}nN41%>Mk3~6#10=J}=l3_X}BPVkpdi{%lFSmr5F?R4*5mS55el
z-K_wj17FVuYpE}FJxNc)+dhpEieE~$fDYN*6zzn1LZNdF#a3x1`9*$&4!pCFZ!2pC
zA<YDu-r;s^zh&p<Ph@@I`<e?O^L<>F+|Z=-OYQ2T+o|P%&Kt3LUT!k2cH*pzj1roI
z6<34~d|rdqr2htlJsqJw+6WzZ9|x8$>P5W$>73JcM;jroM@$GEc%QBd_PT#Xw6`H=
zbOWq2-`3=`ntM~WowV06T8P&?8PMUm`vbqhH>^BTNpF)EpL)&^p+f|_E`I)7nZreP
z*h7v8pyU4ZnnY8Je=X#o03CW%u<=9M!t^Kiu?Ks~!i_UOz&ca@pu0zuR_hHp8Guf<
z_vtx-Rut8&lUA>C#L#DRK*v+&6WytRzC!5!!wKj_k{P+_-?Qd}?msi@V13qg4LUDK
zX_N`BRyc)><owA1bo3tF$MV0V?4^C@X2v**5;6yLR+oz~E>Eo!ili!L6xO>HH~}5v
z@I0Z;Ic`VQeAMgmJzn~mHDrC@_l@xFM-Ad)cm9Z!uyAYA<A@3Xoi9966}rYx)@T2I
zB^lFlVs%C6!0$i%+lF5rj4^7pq7UwOb;dssLFmBu71S&76!W(z#n^FzuKI1^$o?v_
zKJfLBNv}G@rHm3gbI6jEOUjGYB6Q&E!BJA>Cb)fCt4RImCtGYd7>Lk;uP5)3=><kY
ze`3gy2Xrz}cPrOZ`t*PHY&#7*R(>Er=)m`-QE0BdsbUoqX}A7_W%kY*ZUtHA)3Ez9
z#}Li)$jVoDB$jV0P*_jcCL?s<>(OWIy@wX54{r()KNl#Zv|<kE&>EFnO(k4dg3cj7
zLI*xCw*uCfvvs6L0?vQPj5X8zR+f?Vfjjzg0#`&h?hFTy{&cmaA<HiSbW+JKd@+2o
z$OJjIfR3?lrq0f=?I7gvBXr>N>Z%F2m-8}z#r6(k-&~{L=H?PupO#FUzwzV@AAWk;
ze&0Hv7b^#J4lGZ%zBfw@h34go&>@4J=iNFJ3JJQ1TAIhfr|G?qc91&o>mq|Qa$#~f
zPTHJqF6;cqcOCKw*8_k4vo-iO)xziZf9KAG(1D*rDfN4S-^JwL#{Voh5!fcL9$f^R
z7yXvY^|$sHuM>Xn{5EaMN}mkqkkoNUSiF`$nVwU>l$j^AX9(yFn|K!;d6x_@mTUNp
zR;@EK0XoHw+&QAAKj(!9^wTZvV#G!lkoAGjU2ZO=utkA`47x4~5IXSJ7v-H*dE3uN
z9zfRx7NJ7}JI_X<g-=qhuV|&0)G<n;$6{~@9a5OX6hJ|66wf736INuDL{2ALi_n4J
zH?CqMKW!S=%QHVJcKNBo;2wz3fuHA!%YSo^d=6)^q$K?>-6-PZ5jybo7@G3ml-3zq
zt~KkUt1Jy+L?LwG>skLS9oaeXl@!O+Mwe!x(Sn;tc7EUvanEGcRL;8#4Pi6yP%q>-
zuz*g(o!GkDSEU+{3@eZB?yQ<&0G$AG^slERpOsHmnY$>iY)_*QI`Ga?%NMwu8$O<-
zeLu+*@cFxdpF`FMeqDIa&`yxc<;=M~>PQ_7D=sZZ=)gPA5EYWVK6mLlfo_V1i=*O+
zE1*NoA#~jMT)X1vS<~n@72!$|K<66kYd^|zld8!ei__>$RLkZpvOe&Ajnds}xRWSu
zE=x4{i1EXx^W}gJ6I-abrqJBsJC&ZsyN{)^T@gC)c})gjHR$y`tk<*(b7xPtuW2K6
z;QMkK$Y9)hs8pRJpdA{yG>Jn4Iu>?|t|D%{X!ZOW%5U>oAMrC_oz?a0PCtH*7YNTG
z7jF;_@`wd=+!gNZ<di?0Ak8fOj(uqHSsS4Pzt0c&CQ|9W4Ubh@BEj-LYgPnZ4-P$e
zL1mx%pVb?|x@i;EW~A$Z&x@_Mko)Jf=mkm4T2=GH=^-@2eZd{mP;#U8s@a-i-s_x%
z)DJE2(_r&j-<E$HqtY3phl;shU)rP-3+T}64Xbu*u8kHM9oM^(5wd9mIv$-v1FDB{
zj(7FkukKcP*r5R(=Wxn1owphv$=&0p|MCZW89xQq$G+s#UFIhwVcMdsbh=*6fw6#2
zq=0mS2OV9_-jeyE72O<{HlQ={Mk0~RJhHgVq)VyHh5&;GbZExT6|SxwF$z5F+}35f
zY=r*~)`yB;Bj))*DRua-9|;@Wj@hw*j-2q_di}b_6W)70nw6}9PqhIZY3GrscJ3Lr
zlKoU!y-!7-(16Z`@2WY}VNXuW^Yl{Wd_Cicp9Je8Rz5ZJgeOAl{#hTTws(2yv4D;u
z>B1P%pxR6FusjaJ>qHXTfX?~yq_y=y(k{)$dbg9tNMbagv;5m;d_iN#DWg7+@na-y
z1AYRm&t@#2mzjCPTiY;JO-<2}E3tr%Nr985D9$-?&(=}mzTK}RZ9r$~^_6ftl`E$b
zTds#^lIWa513E6>{*BV7x9T0{sh|0(e`yClj;s&-dBWC;wbx<f9%Z}XztoerjnB&g
z9iOtx=i3iz=4p5{p1rf+42ebPz#n&%PwZ|`<#=DqE>P<}>!9YT4d_tKjBIi=6id=Q
z`fzLJd58iU(7BOl&){+O+N1YLOPR%VkxTe7WS!yr+B=;&AUH&nTqrDVk>`1(DHhOC
z8*cxQ68DMrFP6~-$5Sb!4d~?EpiPhwj*W(15268`w1m7H8yV8vkb@ru>ysxCDs7yY
zUJSjij78|cU+-A{<+ES@eDNUD`8=bHiUoloLI*yt3mpO7cl~R*Z>0;e?{WFKGXXkz
zdCh*$#eRfCuX9I7!1@^YdEMg_>~V!&=OzO>&rCFy=$X}zuq+*t%o~wWhJen;FizTu
z@Ruvl*WZ~CI`I2XYX+;Me;ryJa`uOj^?^Itx<%Htgo3)Q$}1wu`r<pI2p#y`2Xn4|
zqb6cRK~6HD6W7$xd*KJG59AmEI-IRDM+@}>{gA^1=zOxhTxNoK@&PA19dmdvmpVFx
ztTViit@XD$K?Z%r{-Jk_WFmXy$p{_z`*p_Ln+=YNNw@$9(-$|tay++1=)l**(TBYq
zeIwjWyydkr4@F!dKcEvXP4b|LtEp=L&GE<~)xy=4L9jl-9b@9=*Z7!)&JNZNKNu%0
zK<L2x<XlPa>-e4RU@I?RBFN)#)(4>jzaNs=Hs4#=bY!?k9ME8hlGK(*=)gNa)2So2
z)3|IjF(>5P9be=_0O<J4m(xWBuf38axGTrY-l*L&0M@ydYK>Xo!Ruz~xBS+Qb9eE9
zfR0B!zFix8@<3ALvdx6RR<1lk2j00{T&s1rLyzRyWLp4TO8Y|;LI>Vi_2BOFiobM^
zL)?#WSlaLoTt8SJt~~bZ{@4#QwlV9ZB2VvxU;&-2=N3-SBc@{ciD}4OH!?XefR2lG
zw>qV2l#&A@za-;X)rTlRhic_wDJyE75?@VXxApVkA+8TuANbdI6bn}lF8-Ck8Vgo(
zX}NI<Wgv9m^CFtl3CL<R{9LE+oX@Lyf-^_xz^`}I(x_yVUX$K~Od{5bh6Z;LgbsW?
z<Wn}5dUv_bKL38`d8jt6yNL(uV|pN?YThtvHfAwu?dg8thePPV*Rw=fZ^S0RSpOuT
zwznCdei@6<fnQ(y6-Ly1QnC)$+KI-6GdsJq5jxbcucyR*R&NboV%@b&6ZE=NK=(2b
zp#$F+Dl0mu?7H=UESvKBVog+^JfO2QOY3!sieisDpH8BDW{sQx(2)ySAe-kpn)c0(
z^bJIx7i{T8Hh1{Gq6ita-2x@wDL=VFM)WvyIS|l!`4rb1Z~kCbB<`Ks1Y63WJfM?H
z=3MryCb5!Q<H(Xd*ddbu&{53Kl&;n~lP2`y+mbbvzH3VlSRe7lkrzX!CO8cgewpZ9
z_0tVR=)lkO0|DxUum&>D+MZ{cv&!TY7=#XdUU}t>mak*zBrO7beNE5LmZ1Qhx(eBu
z>fv)%<_0!ZRrlfpaNofCRB5tjO6$)=DLnA}Eg9+g2n*=g{Nso#;q|EgKE|&qXfmFJ
z0d!`#n-fAb+b$}<Okg}C;QAZ|=oCIxd{ykO?AN2Js6zBA{Uxp&tPclkt3-GSOZDdf
zaSJkoLPjh?2mW|L8#GmS=akbbNy)mhrQhy=Awma!eh9q-9v3_~<&q?-IJN&a_B0bh
zhZS~Tt!!v~-;l25|GALX`0`!;)^dand_Bobuk`|xa|VAD$8=HmRhPK}I@3**vk_*m
z<EUa-coe4nT0{Vy;^=#1IbmK&bSIZrtqy%GH@||-J#yOp4WZITqIjK;%;beK+j2lB
zir72oK8HDuSK_V63l54YSA-7y{IK6y-QbNK2r>5lq&wh$XI37e1E1GV4RSukUTqCt
zc~$4~_WdsefKEu6C3(Ll*{gwigXh^g6a+0_z&Z!S45$j_<zzwcM+E{pxjeHul~uOW
zkRuQ11Zo&g&ozvDF>FYvUONsJBmi{258V)mW@U@NXVgx#FD)j~(goJXqJvbmN#o&d
z=>4cbKxZ&egz53@>In3Hlsur5ep}_~Yf+*r(0T{}oriX!fl4K9oX~n&aA1AZdh&gm
zQw@!jDS!OPJ|NQ%1at!CueZxiPbol-JfL%ZK&LcbuP#-Bk3u^0`5j{dK*xE9cPjeo
zW-|1-o0iXDedeN1k*B-l;+?}Y@rzez90LIzo+O=&lx41ZD~AK0tzN3L@_^2b$L*7^
zF6fG!H`eCZ!e=lLAavmGADTN5Zw)8QT;;u{L04LHMPQ~ASs(cGI=0;_!zIH~Nt4Hh
zq&h(h)CC9~_<hw>z+%o&N<x(*!nxttvQo+x&?#La62pIFaoNr56Xh18>gGr2pka^i
z$LQl5-X=R$!-}W4J~HR#n<I4K`|`GmF6z8<L`%DUDEuWwV1pCTxgPEmT*m&1_(^65
z^Svyx+cO==<^^BRVXm2Y4AwOKmVx5x4=Ml63_!=vWZ7;cUunv=AncOp4P1;lptD|N
zkK@iJcp4Q(bxBH{j)4=<`6_*p=4d~;M~=ht?jc!l`Aj=lACcVKvMKvy{dUcoj&m(J
ztQmmLzx|0j^AGKRa~j>MwP!qY)*R58p-|bM8C;UIU}a=;eUZk-3F=_9H7vgv_|_;;
znh+4whRl2d>(li9Nyw>bikT0Ee%qws2gezJj(Ec#itWT5hr-X}%w4Lo-R6J}_bOK=
zK5?^E9W}6)ldW)#6VTD+NKo>(xI_}Ep{~m8JUubf2G(b8t??vl(6;6AI9=`Z#&TB%
zpp!$DI?_^)^1bzP?)$>O$0Ftk9r*oul<zJ7=z|+9d2Dv>y<=un{0JTReM7HO%8^C8
zjk@du&tX@0z`#l?SRa}C_sK5pI;+)F0t!Y7&JzWIj#;nItAcjk>pr;9@n5HA{A>|A
zDA;|TOR8S~MXuaQRol>w-PMX*bA%4Ok8EbT_D`GHF!7h-%Q~4U8Jq|m`0JFo;yH1`
z^3POmt{T!iep&A}TfjPJkjL14zF2)AXDhsHJREta9MEC;qxS6k#4w5NZH<y&XG>#U
z5jya5SXE*5%V$Gjm70#0c(+dDL<*q;@0``)ZqKN-H=3@KP2W%WFn_-ptdFhXvHKJ@
z>2D*JoypgyZoU@Kku&~4^LBv5dwN#*NzL*bln<cOBgAq_k*DK~(sEy~K0~&g6rdw#
zDM2}v#3b<1<Jw<$vbSyfP00Gd=ap#3{qClTKV!e+pT@c?nY=9s9r(N|QZqVb)AyUx
z%=$MK8)iQQ0y<Lh!Q{#<QRidEIa&WueEcR4=sZfxu0HVgbqzSYdiM?LUOoY!<MQy^
zO}QzZQI>gwPtDr0{4I^hI>Y<SY6U*?BnZ@>t%&kem|Bks1awFy?<Z1D5x;smAKPc`
z@mf+I&<UVRqBu*_LGy!Wu$E)MPl5o@5hS9`RwLLIb`ml<``CBsN=pM+A4<O7lj=eO
z!jJS<aydf?g98DbvTF+wLdIpS2WP7zEn*da$^$x|7<+5AXh`W9%|ghEo&UZd0CdvV
za+IpN((+CvmEi)`(i>Xp!TOZov382_%qgKN7flYko9+ezI+46?-;92E-=n<0#WKcr
z+d>}DaVhb#AJr#XjvgvvPdJ^~OaSO~YZW<IMsr-Qv2b>{pp_xi@)4|$<%`Ja_6OBJ
zJ7&4W_3mD!4g_=>D`(rzsqlVzaf_?{?5#Z!c|a%A{qHcrvsX7yDeYJsp1Fu80Cau}
zzPjV!!me03Xm<0B*A?}aI<P*k#_s<f7<*NqLwlWqH`V@OAfTg=dMA1(Jw|%XgWVKI
ziMb*V=#<p$#8+;#Plh{|=;YL<4iW%5#(Y0MzaKX;2oET^r)Pye-BJtI=j8X55!arm
z%9FEV*3Y~wT>=3euTS&-KD6(JCzN9t+7_R`l?QaDbJg<ed5oUt1=z%GET@wY06JI0
zq<Et01F}5{UkS96mSwiofb|(|IwyR4^7HTd62^aj7jOOv1a#_@sl%JA<|BB~4ph}1
zZ&c+09arsLK~goHrXL5#PWv3T)&zhKBQd75ZZEX0M=j&iIwd_zOEp-Zh7exwV;k?v
zzd1u=m&Na@1tN6dpBJ_{I<l#2aJW=n^0d2tQuG9=1Ao4;F)G~2z0ILW5V77D;!PzW
zk8nM3C%u1a+SaB-yHLj|fuuL!kO0u}TP0rg4<47MnfmwQ@Er?dOBG<}D?i^qNKP0&
zeQGCNyFX7o5YRD7{d@ar<B_9)Tuw|@{EHcRK*!Sf?5gGo0cmDP-26RX<1+++j>&wt
zQQe<9moN57Ay*3Rj$10h`kd>plJQ2lavm%S8e+e)eG3G15@lP&s_Pdn1~d`GI4yX`
z$^$wJgY>7huhmiJnw06|Pi>YEAawX)uirV(zo{WGrBsZqundU);ZD1c(1D+4nsAc#
zEc(3Sw(}jqciw$jtOazg<<buDn2vJaC6)YpI>)!#2hid25VSTvy`MBn%ieS5poLTl
z(6Oy*G<flG#-vL@A&^|7`f$Gj?EEk|^aq{x@S56j>WSPs8(vup=+G!Am02^>aC34n
zE1aJm^zs382<$b@I^JnL`ua=6u=&1*nG~QCGtgOCctCZfqj$6LllQ9s{s*u==WH5c
zj;|yMm`7_E_>X>hUkm8;=2qcrE;xU`ly6g3%`sx<1L%AmD)%!8+ZmUt{_fo+BUmN{
z=meBjnvtE{s@jSC5a84D*=_$lSRc|>JD2S*v_-BqOmdxdx7BI^9g7)4LV^1jAH~J<
zWFpI-8GHbp(=tz&`Ar19T0cuUPozEOkOFj^_5!5zH(wkMWTN}FA};;iF9+)*vvGMZ
zF~0I?55}BpfB76|Euf<~ueC;^@~}Y?J&N9qBp~wvbcipz=zM<DPnLW>QD@V7m0AkW
z(J|ZQRSFU=FlTN%G~^r4-Y)~|Gm%=PV)a)MWB-tqVR&BRpcc?+@w2bZzEwx#%z3$W
z*6mND51@ncS~oq;mtNM2=jwM;m0OeobpDK?ZQmCK=5V_lq^swl;`U3y`h1T5JV4_|
zTYh%5Hm&1hdU!3ML+tOHtx31#-&!@DMIhFe?gQvF$;YD3iP*@zRBs@A=I&T41?XTc
zhEA-XiDD0WZ*`o=EFbTefc4pWb~>s)8(l$G-!Bp;{EM*`(0MPt5_XHYK}e`P={HyT
zc(f0oGxSK#urpQg67>BNQh-jI(&_uR&H61MXTKP%PeABOk>`+$A>`BoI+?1=y>ffZ
zL6GAE=s2acgoSxC@81bvQI%?S)ssT#z+X4LnCuH@6Q>*q%?<wYYxnpVsRMt0*oOXj
zB#_TeL_|!IToL<acE1R$b9<AgdDp3$GU)rPY5|>jrVXXjD%)((&zbZ==)gZ0K*XQ>
z@9dMvedzm<v=KV+K7=+5RUiJ|c7(nk2@U9ML|Zagrv>b1kO$wrayn-X{|>D4-=P<;
zowhM)Au_aV88I%Jv4BpkGYy%kRoN!wXahR>79nw`B3lX}2My>rwGT<CuacaC9DE^I
zA5U(r808<EyO0wL=vWY?cT^_omP3v<prho(?Y^1ib^~(IfX=p5daRN_`wz&$7l8HY
zjNI%pO!K=5IkA9F*As#)rhrBt$k7IL$}Qbm2i(+KAqNfUh?mv(O7(Z8LJmG3tWR`j
z`?GKPoQIGT3+Tud4*ywcd=vvY+JH`Tn&DWu!bLU6K?6E-Tjg$qg5*4qgU<u&6R3>;
zsn+Z%2|2NV&Rv%CC$;h2c95eD=oFA0zoWm~CI~rbK!@#@%^QaY-4w2j_Z(YF`&RL}
z$ojy)zD)YJjAx31_`gmvptGFFL8hTPzYDF$9MCa&sK$CLNVTZh-OS{}YGw&PLI?gh
z$T_R#Q*iU_n%t#=Ov3qciIp5=ec<1pX?*R$wI_~>r=Xvcj6>+a*Q20k=^?5T;Rrcc
zKxfNSB(II<5f1u!%NRh%L?DY?qB{LI<e&hZPX^*f()r7?(9e6vWh3hh?<3FuS<K4O
z$DKLiy$zXqV=@-daTqoDbMH>b1oU&-F$f*_bum!=0u%a_#dG6gD5k+VB@_+l7<8O5
z#6{~%L48KE!1@pg`YFz)?y5uUNk-_v_vJj#?MNCy;uI1et4q~FmSqm;-0kp96cWOb
zLJmKm6UBR{fAt3G6y$7XBI^U+*8^>nb3F=)V~|q|=yZQux5T{@?1!8{K<CD|cX&B>
zY(C^*03Ch22aD#4Bp2kM0iA{#pMuTZm08Fc%>e6sS0P5{pVJ`|<YWLkE?;jdaX2&4
zLyj$=lh@!Ke&5ynzkNgioz}b{TVYif3TQq1>0o_o7n<FSIP~sAP79!O>>9-tt5IqN
zIaol)dzeq!_x?F5$k7IL{(YPL?RedP2y&PJo$dy$!{jaef9F2)7OXR8Or7H~?VK32
zo&rE;%;rx;ke?O`a$EtO(o5fHJI;r)K)**r3ZVmk9MlXAH_*LM%mg|6X~_D(ovTbc
z*VCKrQz54o&`FU<Wu1tKIR*W`2_HabYV_$Vc^NlLPnlu$n+i6qQh<&!=dX%ja<5`&
zJ^%A_Q~vk&F~Pnb3I8j+k2Z~Z^`5No611LLKu6hwkNq;gb{w=GA3*0OVVv3S&+7f!
zs+rJ=%?>FkKu5FZJ4W&&eGKI6r-Jp#N>E9+BdGL-p0CydI`(4C2Xh&pk0Hkg&~aGl
z-`r>juZNzmN&z}twRIy(;^9k>v;P{bkKm$Y_q?iP8ua^0Y5^T-F8TqU=XSG@;{)jM
zOVc}H1KLTT-+Lkj=(xz8IFHLLU4oqb6tF&wy@lt3J#WxMzdxlG(D^GbAp6g4ff;gq
z03C%4E7gy_j2io&i+>UXU3Zj1=)gZ0AnZSGd!6e(DdeC4oslq!zj87$He(deO^X?5
z=th&lI!i5vVJzw+V(au2g!fVhO_Ko~<BHdR&u~VQyXg4e89ZtUG(_mY-^Zr^t{P^P
zFx?J0A_yIL=U%5K@utfixlkVhgbw^ZpXKi6TWNXj7;;*YkadQ?zG$)@|1gBFTu9XW
zm7Sk?Ll2A4fv;!1T@`C(O#kwAGbhean=2Iq=)7hv`EC7xxFvEoMNhAGMg;}v$gTcF
zRYm4CRSi6)^dMtd#3dr@1E0Gp1>2)*p<Fu=yl4Mi^N9JKfzW|}4(P3~|DzagF3PJ9
zNQ(3BU*t?i=)m8%xra{CzzaMTqRWr9+zg_!^+D*s=fzR(@_pl0U&6h2ns0Ru=iW*I
zI;@>Ft(k(hp~`)~ZV@MYf7pM8tTTK)AJ=DgG;iX#looGtL}ruB)B-x(VoF<yY0U92
z*ajtiHkqIM06L_rQTFPT0YuRKM+%_>zuvW5k`u>Xw>d!f4HQBLKKJhpOUA{-Q#RSR
znm^w6>}^^}0PB2?+4ou3Z6yhMG?^8PS{rKtpd)_kq5u1g^ni>a(Q|LDA_!~|I`Hd@
zIVUdgLB3bl+&f*FXVH^n@(3MT*c0K`A6>=klPAAJ_d_f~2mbY3iB8!TdcuiVD~8IO
z>!w~*NFDfj4yo%QDegVm&3~=QY%4C=ib1#@xRYBKdp1b6j19U!qYygqbJ+U*)s9>L
z>{saiJo*ys{6tk2lenj&s`9MMBG2fl^d|#49G8|-No-}y4J-_;jgIds7$S7w*M*_m
zQJUss#a2_2Gc-l^vyY_^I`DI7F{Ny=tVrh$ecc?5(1FiuRQvsNKfb?j0!FxtzC1Oh
z$Hyb<3||i+i)cw>X8!xXpKbrqqNT(N5IXS3_kpqH_-%IFc-%&->TGt}6<34~d|v@y
z?Rmrp)~`U{4<Lfjf$wWef9H_@qTkyU)cvX0$rd6MLI=K{%bqj0f@0phq*-s!q;*b+
z!Nno#40pIk`!I6@9pvu91?-n6I5V(-&hK~ShVijKZhRw-cJ4m^ND~9-u>G6p_S?I;
z`Yy0Car%Y;4+_wUq@FbmaT6`3cEIr3Q9XW(iv{bW<=(?Xcyf5<p?*)S+$$<METH4?
zuX0n@zb8yfE@rOr;zwl+pyMH`;CLnr)lc{F@i`8Rv?dDBd1dy)Y5CCZ&@Xm3;aa_)
zH!cROk4hQcYO>?)W5$<uneE$dlUP8<c3Z7UpP!BR^a@SP@frPB7(hpP*5FsGa>7!W
z_`}{`sxeY1K!+uj_#v;i_tCgSLqt}*gbXektk0c%!B_2QABOglA=i5=j+|IPr}o~U
zTGy=F+{SER{Gi9^0tV1g&=W0aj#eA~S}+hxe$B-X1?W_W4RCebmHL)GJ=Dp7&3lV`
z0oEtWxT`58RjIQ(rZVW2bz3<W&^f35Iys6o-qI*eTJp^e%n}CBVb!QVxJ2J6ze_5T
z^d-by00rpCPjH!iKTW~jmYDzNlZ<RDE()xV{1*$CE%Qy9v~Ol>mds;)SU`tNdhue?
z-uF|!U++8e-K0Zf03D9+`lI6q7R4eeE^D3S1=c7)=S|_8f?>;_n#Zli=_Z1*s<=q7
zKEXkia~Mj+G0UHBzpkh7oxuV+QHs0W{!uhv_O@{MJ74pYVE~<a`+E7*kPGCV6?|fT
zA}>Z!fX+<c+ile^Ddsb`Y8MCxvRZM^!TQ*R%D=sA8Ar)lNP9^<MsfrT=rq2>zsR`W
zf4z~NoBKhefDs1J*(VK({6gn_i$JN5@6Q94aulGWKY!i#S@-<37zfdpRGf7NE&{C2
zW~4W_*mdH&RY#MjIx~)0uz-$}CDFF8V$O)@(<1ZA{!20#K<D~N_pVz1Wv_doe;p^g
zo2F2J4nJMjf<(a1S`|6h`HcB<eK;&wpWej)y`ZZXod~3Y3*XXOaA5%*td7^qer3k#
zYriHq<D-oPF@O$V=LpN04%^LH59~*qx9(;rKnHy_!hkDq<FbV1FQe11V>EE#V0{{N
z#YU(y)qn6D&n0WWn{>niI{VhYg=d=&S6vpV9%CtG9$^3-L6(<m?D${n*OEwoilp)!
zq5z#Md5;g7Zr?LnH@C`lY9gh@g@N@k!m3fTW3KP`n334B2d36z0i9+8Yf75v`<IGD
zM;F_gs*Ev!&Qbd^56yeRB7&=^y9$4WAE5x9^Iwvyl-t-_KiYL%o4d7biVFqnlXKTG
zqIQ9=sl2(ri_0rj8w==!P1wji;u$TVlcTM6nvy5M06Hz1Bx_tl=E=<3H$-?#el4N^
z9Swa8^wqHd-ObNG9=g$7P{Ta~>vMec$4s1@uYIyBP@TIkstpV1v{L=)7yK$K>6(MB
zD?H2UfdO<lpN+muv81@RILEe{A!f0G0(2b7%gMzfFxs!x^*g;@aJAt=!1|1wuSPXs
z@uqjtnceEkkCU)~PA5;y`|Zhj+0?f9b1E;1$1#9TV4}yL6z-Ai+~&ciw3~K*C_rbf
z^UOqDlqsLIoJx81hL{a57_5)Hy@L2(W1cQ&60cM8a_vvCfDRS)V*kybU)GfuE*JMt
zR7PR|od_<&ps#v!J-R-pb`PI$Got{VqBTSAM*@Osev#C#%dXjf!v%r$amP+CJ^ncJ
zUTmp#Qj6JP6btD1h3KrUe7;&<_F8IkW;uBu1L)i(Jumquz9FrvH0n}^>g7Nbprdx~
z`@6Ed=OO>5w;C_|jSb=g!TK~4KE5jPr#O-#81ry>QJWJB=sfb>yHIp!W0QKUW7$H_
zQ;7j|lBACq(znmkG}!NlMt;&JLIFBsb0+eF!3T-n;|xIp>H-D00I)u&C&a&7Nffm{
zd)9i29Qq|<0iElYZ|@~N3v<wadnF-g-E|uS=+xi@T+du=LwTov!i|{`bD;no8N;5J
ztj*-Cw?(i+kvGq*<NU$;EYy#4ruqq3J-B{wh;O{Wiv@Jzb3QhpFYZ<Hd<ei%9(AKJ
zfR6R(d4f2s2jx%GNH!7~Gkp}OBUzvJr{Z)}ZCfV2pCf}H&JV25p8BK1`s}#u`m*9d
zG}VV>ET9u6p%%KR)BD>~hn+{e?e%jEpkt$2^k@3v_1`5A9!xpE)U-tbI@~#T&_DXS
zS#-XhT`%nEmc%^;>(gELoT;J_g)$yzox4f?*AolqjEgeN^fkMh8E2N*U8jBMjsbLj
zJM^&#XZxSJ@3YZ+N@Qpe1?X&_JNVPvL-&NUx>(YR#IPOr1guXqk9`t0cXQzm&$&h4
zl(jG{pd&#&cA;+0{M%I$Zv7jJnk*PV$3jXX`5-HuNxQL=^B`no0tM)de4{f7Qu}?&
zzwiZr>&{DA++(mlVr2n=-HKwg)>&IOc<tiRSU|_BrQQlhbS<ORw2&I#RrnVJ=s0Za
z9b990#adapAwy$c=Y|4w28}+*O;r>)EySJ1=uW6V!TEyqS++3L_SNn%-=}UUog}%L
zf(3MLdI)jo`uhGjP?SbL;nHlv06O!J7nbRKD)zG9Qgy~n8quKu9TJJT=T)8_bhd6G
zW*avy1>k(Z`rO|Z95%XtON#&9!>V(o#dolPPT1XpR_z)g-J7?YX16-NtYZKjQu?3m
z3l{QxJt0lbCE<BE6rkhP!vDL|gr>hbKqvJ{wkavj8>|nxZ}Y67f70a_m%7>K)_z!G
z0iDMUEFF7wskT#@e1g_LCsZ+jj;T|N!vohJn&)=;8ZIQ?jYk1Gp`DFEi8$#eQQSqT
z@%@J_I4`h1rjLBj-M-RFTPmi`5ce`h9}DP6%}3O9NRct$qL+N%_3-j344{*5bg6=N
zU`lW+bh{<!^llsq(D|~iFPo9?&=KyZaHQP$>Lbn*tk2J^`;NJN%I8?G$0z*zed8q-
z(DAzA?Nf4dx-H_pknz1+veg(s=k|<aZCQEOV3f*~XkVt`BNU)Ry|0w}iO|vdLIYLQ
z!vpgVxJO`p%DB>b5>cLJ*G>(GQd-2{#{xP!dJ%tQf1YKn#osBAe^ASd0d#&nw>?_@
zWi=!3l@&n#E7}VM=$O?!)U!|_PD%bKowM=LR37I6)`v9tX^idbn>ruyL33evc}pyy
zGg;e4yR==-Vkh`=EXIGx1_S8yq|uxqRARfmI`FOE<h$@V3ef2y@TwF2aN$c>GVwPn
z8k=i4cd$OClq=$zulv+XKQ0>wq*SS30iD;3t{y0(yq}HpEngGb-S1-nou(M>s54zw
zDjH$^JY^ITEhs=|*n8t#&Mf1KCq9p9GvU<&&JC<j%TC>d`gsK@7fSJTS^s7aETCgI
z*Rb&P_o@8I92)|@w(`#yK*v8Z0CTh2Q>Aj`ht1CS*&!65Lsj{zru(+FD1UGH)`z4+
z6PznppBFbL{P`Jlujmr2J@B+jmcar#EpK?`u`K$xZ|#yda*Qj=VgQ|6q_-62k{@a@
zoxUM!Ir6<11?Xruq|d)D`Ql(NJw_@xsk4G}0qZkxpE@)wL`5=JNrj;8pSCp?(5cPv
z_1#D~m&B)WGwbku$vg(o$uc&1Jo%-k(XEF|GAGgsivn~S8#CgZg16tl%Vc+;svHx=
zIfM0yJZ0NRzmv)NyITB35d9J!3+PO2bTa(${`Z^iY07(D$GtQRpmW9caPG}^af1J>
zLRPlc_#z6>A-3;cjSk4sH**w@j}W=6f^!1vqp3{dQt&B72v5n9MEQen1Pkc&#5F4u
z6J8mRldv@Glhz)?06Ie&D`%e#Y`7<e@;_-mydsYRbXMM&73$Jhy-()KQh72?Vu*7D
z>%%j0zaaK<6lWB^P{=qov>FTOoV)wNx4coAt~;klL|phz1qRT`^Iebq74+#0Q5oTl
zqcmzt6rf{K@$9x7JI9vj`JgxI7lsLN4q$!$4WNt@Z!`2R{<tb-B+$o>1$5q^Y3V~H
z6;5A_-Q#@6Q>lmnbap-K9-JJOS7b4+KY3S>g+&267gL-DAFIdjpOTlhWumxo1!oV|
zhecUr&`qtANxv^iKk5_zG8WMJ6sZ=37YLmzZ}q6H3Hs@e0d!JROqeKg{G~aVA`%&#
zK1ZPdo!rT0*72<Ol;7CScx;U5TH)-#`e-GOj%Hr?C#}y|!DJcTR)Pg|q<`<-;(Btu
z;IXrRR6XI@H4LDmnD9?+)zy@^XWKhnR~p@o0(52x()=IMaJ*58@<2}vxeelM!TOxr
zlG)7*VI2}yj~3sSsU*b$I$h27O9l^R+Gz)OlsZ+udSL*awWQOuV``0V)cWK#yj5XD
zC_v{za@v!gT&)Xt%SgLP&Yx$+Jp}7BeqCY8B1>B+mGttQQb1rj7SM@X%P2@N5Osaa
zNIM|m`Thw8&?&i$_qG3>w1^4swT|}WIz|CHp{hCSq%l5R`DQN?t=tT?a5i9l*y+2N
z+V4)k*qQz<UuGjTfdzC-h5Bv8zu!2X@4jWmsFN>*LFmALp1G!9_$KcbrOkO)FZpOX
zw2VB$J~Xh;TYaE!?=K|MGR*zrAYw{Z>>7yBfqx#v^AwHkf`KUU_~c1ys@w$L5TOJA
z9LI_WewCKD#c_f}CrO|2$vhK62fm)$e|IK?mP8mI3#3Gxt>JRpMA(@c*5~iT8ctdg
zsdjTKgZ|+KTWU^(>w$lM=c|Y!TesiU$4T@qZHZLIODhQ11K*e4wQZV&k92E4)_zu;
zHP_B+LFm9cpR+v88}&+{>w71*Y)I#yMj)Vbxr=_o;*Lxtisyk$f!<M^JVFQlxwgqw
zH^qDfDaKDN`W~;(M@6F%I`DlxPu`g&OFFEp)KzlQe`%S5w?=lo!{@c6aW{88tgq*z
zSA<Dp`-|dagbsXPmQ{pJtP7PM3xB`9e)|3A|NN#AWb1+d9(gh69jENYoXPt#ZCXqO
zC2t52_JOZw_6$Lqz3KHw;i`U@IK)omLHkhloF!g4t`?V(u=4x1lFN;>54>~H;qShc
zAG`|NWiM$&4fN*C5%z(9e$X;2>8e|*np(LHF`*>2@{T-02Y!CMu4eIB=sx(${&J)w
zsBA)<0HFi#+*8#uRJU);`Au@<R?&O?t9UD9bBFg?5OHVgyt;Y5cic)z5cg^@8KDE;
z7wY(1M?u&4pin%QL9mdFsUe`F;%hKOz_80gVSGIE3yoE0Lg>KvRa)+8XEymM@aFK7
zj~58}AIw;S_2C_qb1+MP$Iq?4&i4IrcT5372R<*Y>NZhq_WZ+)NNozg&4&s;2p#yo
zFkXpEyI-y=X*t}q79WaMl?QYd(KVp~!bO<+m{}DMtMw5SpmX5tS;i)6;bU&By#CmO
zydD1ltg~B?l+c6NbMzHn&W{<wWj2x#IwY{iQ=YH{+u^4>CC4km@rGo(X@LkG`1O9T
zK(_d-OB|)O+m0nAewxl4p#z`0>6hzU;*A%pQ-aR~#u<`Di6C^~*B9@8K%aGmyV1?r
zNac)xKlPgy$U4KFgiEx0k$CQ_Mi--VNXz4|mIFHFri04G&bt#TE+WG%xTXSEKqu6I
zy_Jutg(r}j+iHrgv|R+D1MjSdetbipRzK@$LmEF@xqJ-)LI-|*W$%=%8Wx&Au%o)_
zzR?n7iZe&n8Sa>rD<<be?7D{ME69BxSICM5bf}D<Uor|TX(mA%Etj@PR~RC6;ODvJ
z{fCUS+%NQ6=}Pny!tZUQ5IXSAc4wol?2MRwy+gRF;sQ_RQ3xIQIn*D=->B8AssG2A
zoX>NMIuK`utTWu<OZxrolIHlj!K~CvX9nIAETGd#FdEc9$a3JiEqi?^TvQl?(1CY$
zJMUG%Y#%^(tX<DYK=1LJAE5(3KYC{4x<UO-$%UKr3AQ{>E^eBF^|2$bD<N7u6Mv_A
zbTo1+j;|b{1Akrc^)4rC2=~fJx_o*E{U&7@7NG;**FalR)lj6#-#_l_1^ahhS+x;5
z@N+mp;*e^>yUHl&pKtyviJ6cS&{>Y2zk(?mj`wCidGv5uOJ?&vvd-{*b)Zk>VS8#N
zP|Js(3$!q^wFn*fzTEGcSIp|89tFJnRP=o;uo#QbfuF;@e(Q+DYy795k<AYJy{S8~
zMd-liu9&*;c&D`N<wb0S>gfBQXnBMVDeQ5%v)6H(Q%toj)xooJSh3Mp1fc`(97VC<
zrPFU5UiPt9apfLc+`b92dBN`+>!cI!KaC_3W?GTkhzz1iYY{r|&WB%>AB*YaMopHR
z2G(tL#3dti;QONaa0SN|ir2im$!=#ydZ=g)=q$BS&ir2f(fUcUN$F?E?}z*d9r)be
zdb9Q?Y-c<#ij_*6Y(5ks0Ca?TuFG<c|7(5BaQ`f~#J7v1#>nOc|G8MqbPHRV0WOTC
z)KvMeioWpT5jybBg_>x$FJvtDUuHIC3>yT_B_nj;*D2cXUfv!F+1Y#lg0AQ-zW!>9
z(1D*rQ9cTjIl}XwJbBLGu3wtS<wxki_l2gF?I|@FEB<0qVf5~!C(EW0vd-{*B``1Z
zY@<y*2!&Gbm+w6>Zb9h4&rfgl`MC}Db<rq(lPg0+K4i%V9r$`W(exaajyDy>`j1qy
z!(*px5jyZbLzN6Q+hxhSKGET|lpd`?A_yJ$dio6SFkJLEMGwoKr>bhSG$26e!27&y
zONf)qb!r>PByQl|(bgHghiqQ(eN~YRieI8XB0QRT{-Al<-!B8uDgPpz)p{%Lt<TRc
zJ~od|0b4-F2rX-vw=mXQ$%`to4|T$b06NRH3~S$MuNd{6?ul@?a-o0U5LqAiynYcy
zZWel2RVY#@qJ|<RnQ;gmc;|=YMz-qsV1bAh+xo=!3R1BM9r)a9l*vw7`usKbj4@A`
zt2@bU0iA8`UuF+%_)yP+@J6Xd{?76U9r(V~%FVm97Hw_5(D6S1W9{sQLg>IdbK96p
zQhC<aessva*la<+KWYFruMb%v|L_fwG2ce5--z=+sVzY0!1py$IDS*!_<Oq;JDcV!
z^%sS%2p#ymuH{~-Nof4|`>qX&t2eTD7=zG(KYkT0|MO>JA#Tok&2l_W(v>fd(1GvE
zYn9C5VJNvO@x&6kU7cbHh0uXNZ;`UuN+wWdGA^TAFWOEyKe%!i*}UM6zST%|>W2cg
zOCLE(mO_VUaR?pw<Dfv<_no$?kRgS~i&9M0JE>Se=lIdm+kJhxN*_8EiW`Bo<rqN6
zuA12;>YB|v>e&~fvp<yfQGkx{l4L{R{LZ$1{7u_4-`JvXcaU|4_bD!=j`@21Ln%GF
zRB5!kH64r4fj<v-+4H%u{W-Dc>2v~FX}Z*i4?+jN9tNhQtu1-0zHsxwJ?srpZ7D#f
z>_YbklIm3kja-MJ`-&z1GdpB`;P;<tR{yV(R^hh_uk;afJ)N<|A#~vTic@Z}X0W)X
zjsN`n(m=t<FD#%#E>I_*Me3G(b80LZH}3xdgV2HBe<IRHMp?g(CpzttH8e1`k#Qn)
z;C<qV9v*bQ4%Jmt@^DJvJzCq;L)IC-9+xbQzVP?<YyBkaTCXi<lyC?g_<an^EiL!*
zGRiEq)tjaM)iP}?phI3(@%Sm}?_L{%Y4;UBET18u6Bzlp<_q<4d6maSwI7yY)SL(%
zc;`QnqUTUezcnl^R_t|O1w?J?BI^u)AG_@|9jAeEqKd>Yt7Q|jSHvhn2i}>R6}z-N
zq0c@wx%P5wWML%(p#$HS_RAJYwJVdi%S^t~{c~g|a7F0A*E4ux&oS^uN7BDnhW+EE
zY%?i@4tzaDCt>c){2_h8Rx%bVeYAxrKu6W?&O(y-Lo!B<TLux7W>up)$mRv#S8$Eg
zFaB2Hhv(cc8@|Q-2+Kg|!1wjfVCtBCAwBl%>P{?WMNF+LLI-}ISO3b(^vG{fEj3Jw
zBSZB0mN`NPzMh?ZR|PVaV*AZ23F}s|d^bc8I`HQS?#HnPyN84h?ZJyxFG6Nd(11?w
z$`P-V?aq|^q)<SIpS|j)HnMra@AK}K>#4LK0*fmYnP+RdJ*Ub6oq>YA7gMdR{O*%<
z=Y?uJY+V7JvYHs{DgSuG;KmXb&ok?3A_yJ$IsBO?=85JLHWsEjJ6gc<S7BcZSs(cM
zi4JPyIfbJ6HkIt%E%7AObp@dVKR;G&-{&R77=I6U9=%j}ckr_o&>09OZ1B8n`NCjW
zFtkg?PzMX>FrcdIBmaH9b0)Nr)vB8#*bvYe`c>^EvZff?TImrS%+O`V59riq(lPja
zl6>9}WbRL6>oc~miELi*xgYeI?=(H(`}2B|@(urZV|WWf2R^TS!Q|X@7StfW{@&UN
z<Da{+2p#x(&_t2!-5xu!n`hs14t{ZXY>3c-uV+oqu;IqqZI^qE>S8i(A>sUh&h)oQ
zA|ed?y#k7v6>;|ZvHjb~I>Xl^sc}BCwExMoUpO@eGhTNo96|^FJgVxeXZBj;o*`YO
za@SbR3@QVm178n1S>+g2Ge7jU=eenC${@WfLI*yt5mHK#RD+peP3H&Og?XuYQV1RR
zdQ`bHX+%bS%@RpxJKs=Hyh0&#;Okj-EqnQ7c4a=r+;FOQf#yA418iR1XLUQ-ckfI8
z`h0)vpT1On2B5=lHr}0MEKVaEO;96vj*HwC(AilHdr#A0%ba|erbHRo@IW4+1Al%<
zdlPfxkmzRCQ2m2zd5?Sq`4KwsdEKMWSMxM*b#tg?(3|!N4&1*5*16_sdU5xI+YMTz
z#bx50H0C&j4*Yq7;G9#&%ymt^jf=zsS^VVl1%S>w3d<?Wh*$L7e50y$4vwl=gbuuq
z8SO-@*NyBHi!-H%gF-Jt4FR3Zcgk)npHP&oTZw@RGRb`W2p#x+V@-Lv87*`qJkCRT
zYJlH(iU6Sl-`8ID<h8r=5=AAZ_M;znw?E?5k<A@`otov?5jIdeTBa5haJm0`|2P?;
z17A<Mb7$M=Bd?hcG{tjO=GwxxfR6ka71nsd(3YZN&okt9g_0CP2fnYpCufR>UY-3X
zD&s^-XZ1ym0MLn7cdV2i9VXH#c^dO=0QVB7hO9HZ52ZQl9k0PW>1<ZrXP5oii;@vK
z@bj|~o<<W<JhGsw+om-axufq2=+t2NHe2=C;=|lS_F1TP7BC1M_`Y%{qciljIY?q%
zE-FyJb`)U(bchNJ-5%uT*Wd8{$uSXUD!qaM>zsJ^iY={mk8SS6ok>oyvXxqd4*dKK
zpZiQDS;+C{s$x!kbm2dqKtRV%)=Wy+|8hXqt@1TR7hQi0LI>V?e|JrSZp((~z>QA#
zlM>qtCWH?B{A8Ijmxd7W-^^+7IAfw`du~$|S!Z}3-A6-j-pgcXCv^^}v|0!=)gpA@
z>tQU$HQX5Ha*H=Id2RaRl4UGH2mby%+o#t3^NX)OL_~MhQyAZVfJNw_Vc+M#rtBd8
ziSAw6`}H@$X$c9K7K9FbUIttWQ{SA1&O;8;eZgPnZf4%6wzR&F?;0-I+~c>V*G9M=
zxbx<9inqFWAQK(t6~%TesRA0%;XUl0IiJTn2mO9?yb7}O17DAgPWDCjGX7%d_nXHe
zbl}f7tO89p)Cg1l>$n0sdU;A2Ogt_d4gyiC@9>H=+6W!^z7Af!5{<gUFa$YhKxYH%
zR98g$TDYgv9Q(w)s2Hyd*7>Q)mla=Lvr@>31#}pm#you~&TJm=s5)h@5zVFz==_`O
zmcFpVybd{NK!=TGR?MsNg~u)KIpyrqUp4rfV12TU9<6nsT&#thSU~5L;3p^Y;<8Z4
z(FSy6_=NeFMrR5k2My>f)#gtRj@CIt4qgeY52iR=Os)d$0y(jOPJs4tq<FMv4&-P9
zI$k^5cI5}3;~)nO=={+C*LwZmJ`d#J6~X%4PcCISl-d0PIkAAw*7x@jxs<IAkfROg
z9B2GvA2xr5g&Z`Xv$TDunEb^88RXy<!1|CdEv6W3N?n7TSU~4jQbTZp`v4#0XahQO
z&qZfiexFr?95kRqeZzp~P%~Nza`5tCeOT4_{bt?&3PDaRptEQ-k{%yGe-?7I0iEaK
z%~Pf-(+iM;26Sq5n}ze_yU#!l{svedj%5)J@zM1E_x=OujEmdK{OCyZhSsAE=qQz}
z59M>@<UtM^(D}Hc?8INBBMLeA>tKBX-dB1kOGJ!APAs6qz_~>3e||n2a<l;*d9L8X
z$K2wPkb?$vI?6O%KZJHRKn`9Gtk2cAE<a@SRC*vM7SJ&Y8?dz`>RW~!Z9s>a@qrjq
z-wRjBK?6E+ZG3z40b%ZtgO>&CBk?RZWS_6n7;<6(9m_v+j6qRhB9NmE=q%j3W%Bn~
zS`y@-0Uf>%zCv4%?mmVb{57yXqLmZ!rqRT=ASV{kp*z(>ayBj}kH$#FZ7+q;Q5(=X
z5i9Ap3z4se95kTAWWC$o@JY;4Gi%3uhu}vzUIwg>Mb@bluKO)#ASV{k@g-Q9o6N?o
z$wlQ=6MkfO(*|^c*%BM=i@jta2My?Wh2i&&9o{fO4qh6p&lmn#xzy++b;yYYb(*+w
z#LY!k4R8B2MkszMX#+aN*8+{7q714b2My@_IeSj)xn$c3<lv>i`rHg3sJ=?{<`m?_
z0y<`==fhHr2?zO!UKQa#3Yusmbl~r6?QN-Rob{hDN{r88y<~EYoC(lbII1T~v16}J
znEP-qPPCG0<|<g9x^()IsfYn};;f8}5}JdR41^B+eG)+>+Y5gtJ9CfO*JXyx-fRaV
zbl~rAsP+f{C7a8<Dl0}5(4_AiC=cl9U*|i<InXmf^CCd#z~|Mln~~2>D}NT67fupc
zXSfqHT)On`_3AP-uULc*yw9D!tE666lOIBzwE>;{^K&((Z*+8_&S*e~-qHPX@|_0^
zP-pxVus+g>Q<vHvPb@;6lL4JVOp8}#P-!F7*&Lw*?@S-Z)J&Pn6bN<Z1a#b=oIIZ^
zmVX6xo{>P-2fm)O2YMf071jNLI%gns;OCI}EW<`R-<B%W*%r{z*U4eGD6@!wI*TB5
z;QJz`lF%z8tSEpwZ;FHUF<RoDyDHpw5$aqH==@1po!ilS_Z8~wiqL^~KC}~iXCq)!
z33ZkNbjG`W4!qLpRe(AZAavlJ)zyz#tMc9PQ0Epgu+B2AG%F|$4hN`nAfR)BpryN3
z%;6E#SstMS?`%pos~6{*e;(?L0(90&VhD45GdiHocu}xEiS@jNMV712p~ur$gbw`i
zRNm)Bt4ORTGc+$(gbsY}J+apD!5U$&pw1!)9eC&Yw4!H&IMO(%^S%hOK5(bw$+O_6
z|9;+wI=3Kn;QLxCjQgKwbp<_8=RkxGytB9EFJ-?~saB}7IYI}%9@_L<=Z-W(AEW6V
zZpZdpc5(tb9}0^M25Wz<LD$#JWn`V<>-l#~FrF@@yAI7g1EB+-*O?1G{MaiwyU^Ti
z0i7KG>7Lj#9cQ7riy(C1`>NsX@4cM%`ZhH8%}dDoz~}BrGhwZVS09Jwjz{Rg*V8-M
z7HxB6E(gsk7SN&SRW`k-WS9)iOB<mBpVvgsO@-&d>OIiBm;jv=x83Q-9A%%NdCdqT
z>kRMn^+=OV(f+Rz)HwstIe1#ACZ7;Wv~e*M)8L#EYL3u>_vzAb?K(vg9{|mZAE5)^
zmvZ8Dqy6V!K0)(ZxrnR}d_BzJ^WT@ETz*3HDhG7FewZ6etPTo>=H-LXf$z(34`;iW
z>6!=4OA64rr&-}NWJcBpb>0_3)(5_x^OV2eFB`-VK%Hw5I`GcpH@V;Wm)6ukodW?K
zQcIFL%x5=N60P>Tc1<Gj7(j=d<rG)Gj^1r(UTB04ybs4>73Jo&-5uzDh!;fG8Gb)}
zGnrEmrhUoIxrSn^G?V;dIYI~CS@YP-UQu=Nzt1y$5IXRE$-8Dgx}WN{4V@n;K!<TT
zU1x9S)0aGpMgphOYS(=MWPRZK67u>(P?7sx3p$4_fDW(VoO6A}us?JTv4BoP)Wu$V
zXU8e%9BKnPMtt`T9OdZQpmWHC(1FjZtdcMK^M`-?(0yZ+A6aL(Lz=d>s8}wg1$}=@
zGC~JFFZAP0?Mq2<9MJhON9e%U!!eDcr#$mr7CJwi2p#x(rgAbe@4S>gD&RTQxDu@O
zVTBK@&vZuoN~6N%3nIr7f~||(R|^0gF6&am>wN#pq4R8u(1Gvkp49A3=1YIRK<8Nm
z(D~CK@pmLlIvhHO`@CR%o_M@uY%`4Kh3<#72p#zSkm0yzkw*ERH*}tp5jybmbL)oI
zY?*%y4|EO<0UfVk(S)vywFXK*y7jAX%z2mqofmv<JI@E36QQ|}UO?6vK6lMidVA8l
zXZE4FX8<~i-ls($v1Gl1?qjxqPJ=Z5t<h@2SLpnRAawq(d8NG;`1yP_4SF2h<N@mw
z$T78+IG=wDIzP1t9r$`U`QFXS=cq_SuPc239fvVvo|f_QsJsW+hC?K3XemI4RK-?z
zzP?WedLF*d4c4dk_3#Q!5V0zBU9=!{;C+O~itUXWC5vw}?#=P~qND>6I`HqOwNpr3
zoE=uwf$sC#2p#x!q3<N9ARU13gzoc92p#yo0;lD+!hR4OLihPmE@YkI4kbFppMSbU
ze#S+uMO;T{CmGb?vXAMuEBprCHw+Ov@IJ-~S;YR=40fRV1}C6Hi#shzC}SxBUGFRB
z!TR8D_N!j65cv#Urv-q{{ilkG-Iq0tpz~}C=meCcbzXITF9MxIeuNIZbBARHX<JP)
z8#J#?PGo)Hj$dKa=ggD*Bxqi>fKEvn1A}Lx#S%2HK!gtbJm1^PFy;Sw?j1BQc|a#O
zH6LG}86*zPivZA>^X|A9L?YG?b#CDR>zvx)_-k#wG#cuR1$4qT@rTCBD?(6bZG;ZI
z^IFCISi-AE=}>1hprgKGy?E+en=kbEg=a_B2fm(S>);fMh`0ZJyod#KNZ&V}j~}(-
zgRU=agbw_=&{z@C(Yo2J0nMEW(Afz}FHhE-vVrD4!-lL6d_8(1WtNKKLhR7<r~*Kz
zsP*jy!xu|Wq4VR4(1Fj(*Yr!Fc2>tC^gK!gp#$I7HIdBqPS0^Y=p62|BI^TR&&a2?
za6>-Z0_Ysp0y;8dHwk13=dZR63QK0!Pe%FxIu!#1T#Ty9Q_%fK3ed@WcsW6Lim3@Y
z&-*OM`oKHa#y;_!IPLlzI?pYDjw`1yZ&LVACg?n40Uc3EUQ>JxdlPgHwGle-xl=dT
zy^~R@{qOrxXh0{{!f-uXY2+<5FFZ4{&hYhcTr{jMUceVa^NL02z~^<q)~CN2OSb^c
z%Mj2h*gkIA!16Fc^Wp?_hIQ|8hs9Igg66ey4y;eN2JsL7kBf!S^<Dtz)V92re*e0S
z2AY>Gp!3K@BHxZI@Fp}beuNHuUL}b#gZ!DCuR`Kub*Wm&vNoBJ^?^GL>G@SPKMyHJ
zdxu4$&Jl0a0y+k2W@V~OC^6fUAF{t)yu1Se9Yb3JG#iO(B(xq3pfgEOcrjwwJpx(}
z8ql#WUzZ_KrL2b5GkO-RGqIJu_{(=(m!S1z06G$~o=yBx9Ck5<Ho63S_FJ|H9r%62
zX{`PD&9@^i$l(WcWIu@x=ZWD?LCy*zvOe(j5Y^YK(hLODKu!UmbLRTmy!5AQB#>hZ
z=$JJ4(9!%qoZV+Qm+v1paE0uhO{fSBD-vbPC?nZqWRsa)q>QM@C}fivLPkP%QATFA
zzJzSD%ew#fgX?!6$9X?FkMsBJ_vCea&iCgW*L8ibE`-~?n8S<c*bDC$yDJ9{V9qQ(
zT0R#WW=_ak9kIonTtuf*?DfMAKDsr`u|;(5{U-0S--vF*99~4HAkXHb11;Y==FA>P
z%SV=>=v23$BtGWkB0A1Hl^U{-<|r`77SZ{2j5cKa?=Kb1;YD<={K=*xBB)ltoLM@w
zd`eas-M(#0U&WkUMCawmYQJ8VS9L*Yu7NaO8lx?w1D-qeWf%SuUz2!_If95zdbk@w
zW`M&<%-NxZ%LlCIYx~i=3&|cdm{X7Fm_F}&`H}VhMa&6BbmSwr=PL%T{lpwiM8{p<
zdN7(UXB%^v5S@<28wS!mIoX(lqe08r-GM~F`upSu%*jP`CI%;k?t3k-V~z`=qh3Gi
ze_B(+5Oc&49n<q}Yp+D*!!QRA(cws>Ykm>9_YiYhsnK#KUG7QPZ1wfSoJd4RaQ@{s
z0pDsT=IA3j>1IBsgKZPtFozS-dBd6{rLto;hB>oTX!&HF{I36~sW=F8iV>Z_cX)Ra
zc=anW#~ab{NfRJ(n?7*QFc1mikYI?Ffpoy%9k?QcbzK)P7hw)HqBE00s4mT2VTd_6
zO1PZCdW43V&b41#5yG5eMCY27WwkzM`Zdf6Ky-Y3r7Y?VsAw=p6Va)2xv%_0Fme@h
zI1!y)r}a+~mJ#nUXO#ji=YJB9$w^eNJi?rMMCXAp9h)dwnjGdtB08P3a#u_%8Qn0)
z4AH5x%wWy(botK_M0AX5I@|?4yP~jq@DQD!_*}n+g;ZxTr;8k|UxOAigdZiH7BMFc
z(W!RKoMa>^kHj1oMCWmzd2!vB)<MjXL3Ff_`A_a>h5BO-HKL<;ljvwttBMuo;K<N&
z4n6)&R-et56myCZog4x;pKeJ8p-g<c{iQ&c{QyV@yw5%Q#>UZJGQ7#|vgZNySspVP
zL}%b)s@Hpd$rQ}NLv-F*^kh`OqAD(xxyvbb-$SLI6fS3QTyuh(a)!zeJuxQ$(K$-j
zv?+eAk{|p2j|`#{(s0V_OFiBd%)vu+Xm+~Bu1y(bV&DI%Cqc`ng1z*%LGAD&<^&)*
zM#=1Dal{08UL8SXEbEj>GKh{E`PPl$Cx3D=2M^KdwBB(hsxh>CaZIvMI@9%bJuzH9
z;B|ts6Cqc9DkTN=>e7r{`|szGkPbKxA19oS{+zRfhdG*vjx}!cua+Nm0p?I6I$QCr
z`sZG*I%7^35nMjtxB}ZJ)LNC*|6e|cPLJsWDXSk-t5`jnh|X{gU*SSpjt1sXBRbXg
zuHQ+e(+DxA>lj)-?k!bc`tA~UU``~WQ*`5$lRBMv1LkNVI>O(0UsTw!mSPSyq9Yq~
zMRr0am<w~d2+{I!aJsUd^YLvN=0qYof2&9-+Vx1qFh>*7(T*-yBaET6#T;rxr(I8-
z)P}Fa5_7r;(DLEb&}`iz#-GESNK{8XKccQ;UIBA75uL-7$IXdELI3rO8qxW4<2(P0
zJ=}W-Q8goFs_3RJe7JnT=VMhxkGB|?j3O{69?=nyXDaUc$9Elb%n%*VMv1G57YNBQ
zhZoT?h)A}_{rmA8b5@U{<x_2{M9^$#{u6U55gj(#D&=|Y&>qYQKy?1Z&bSv|Hg&-q
zWkjcd%sek3W5)w?s1cpteGIdK#l57MGk63oXI|S84#TC^&zO^j=rl#n%ga_IN@I>K
zqO-6U^oY&2RswSb5uK~A$qs%*UH^hPJ9udMT;}57o@8>M#GHCW=d<APq|nHc1k4FV
zbW#GQ-HkqdJ%u@%h)&aZ>)E`tl}XHDLUith#oW!j^D_ziJ`(P5|M36*2Ygod|NCF?
zdW<7VZq`;a+zxZn5FLLqR;w_a>VMy_GedN4m1;b5yz)d5tA`WOd6Zx%-9+_O7;|t3
zX!(d(3>Y1<_~Bzt8ln??Uyu9MR=*nNm?1iO+dHm2WMaQChZE7UXHPL;)os$l9Na!y
zKE%rEw(CbW|N9<n8lpo_6ZMz#j!q(0j~SxV>9OG1D%G8iIh=?Nt$^KKeyzW6F$cGY
zmQVA{jThsm(@tVe8lvO!fuuW!X>c8L%n%*-!H?8K$DK4VhZE6RI)UdrHS2#4b8x$8
z`7lh|$<@l}{kM;$Av$YI4DYthc=WM)%n%*rh8!P)pz{B|7srX{OerL^I6WSw!M@Li
z`-hf~@aUV@r^VwM?%xjmyRCTsQyQY<JLRPy+v7Vl;i&OlF|5DE4AF7Pb~~0&78i;+
zoQRIpxUsm?6B{<n!Tm+cr!l-GmR4ul3U56{%DUH=C=JmWd!O`qo4Ne~_PsbWM2DHi
zU6A&aybtDZB09~2ev#pap}v@d+d<1m+S4VQ--}iobJ7r<zX5j>m-QYoVBd=~Lv$hn
z$_FI|+-_qIC!+KH{Z<<(P1#M%!EK}EGu~>;@cof=G3KNpIvh8M*?%7?E8?FkbqpNH
zTr)#-p0+z(u^*5o!5mIRhs7v%`nuOA3(Uc7q2-f$ckxMa`gJeNNkep^0xTbVFdvqs
zed}t<Fi3pX4AD_P-&-l_P`8OWoQTeae({>NUT0^_!EK`D!%?Wc_eOq%6m!xLou>o?
zPFb~s1o`5nIN61ESu;dOMKoH4OQ35Mb2t&5=WOD)y7cUeFbB7RmQNY+I~+v{(Rs{C
zLv)lPXX%Q#If^Xm^X#Mrk42k7I=sLgP`AYQv*!xCj*T?%Hh!!M{;iLgPp7z?oM1OO
zSMKyLk88dGhD?wS_&n+?xkZGId)zyZpb6nU;h|%&IfKq;m$|fsO}jx?`lIj8yKNHZ
zLgoWHiBo4qvP%6AS=<Ypm#@*gxj;JLePxs(M;mFH_#);AB0B6hz0`P2PMcuP>N?sy
z+-rS(kW?b*;qT=?7OqILSd8ch9X1G){M;44b12$(fuHKU3!-Dc!sukiT6<3Tn^zs>
zCDk-RL?^UKi^z{yOnJ~)fzO{|WOQ{6Eg!qdrnndNdiI~&x3ptw%z}y`9q{`AZq$7z
zEo7FcjMFX^*`7a`j)Zi;d03fhu6yh$S<8qXAtTFC_I7<p2mCunWMLDHL_9K*<Og5U
zd%MRw1R)*pcRi_(j&<49oOVu>nXL5;Q4jGT9dKOra#U=@EV2Q?8OkSHudUu`{R7u8
zupVM{t2_S+d@tI^_~tNcrS!)`I$%BF8|o&U^&%=6yh^Mov;qNUhz>jNcgy^T#0tLc
z9|cywTJG^8I;#uR!kaw_te+wcC-M@nmaMMA<pYk({E}|;LATEC0)b_qRq3BUm5>gY
zv$JNKwD-N+*Sw96Mu^s`g@r;oU_E%xPslAcZJj*Q?wUNK9IUMg>45e4<S!cD`y92h
z=J)r$3-5_aPDlsbpBKd5T%fWIRw!*fl0;Ce_z<^(mh+D@GG}VZD1HZgo7m_hBiqk~
zbijJ<Zv@A*@Sl<)onr7`Z1tVBg>=C6PMC8gW1!OWQejZjckff-{W6da*sn&VYCCt8
z%efn)iX)q{Y(B)04p>iMfX)xa$hC*Hx1yWmx3(s6%Wye^`P_LTby524F*-VpnFXqE
zr>W8)9dKN;beW>1`fFo1xCzc>CLUR_g>=Aq=#_ryi>##<>v^O1WU}va<HaEzupZ7)
zg+akq`uHE;_F@e6{srSfI$%B$>BT<TVl7c30`wvY=4@8=OK>@Z<N9=#piE_#@7mwQ
zo|4GmM>CO-4p<MZ4Q{TkdU}Dxby73pOBahKqywI(?wijyNq5t9?PT+kRxjN7DhTO-
zIlp)jI`o)*z;8<WjH+HrX64QzT0RU8n*>=~Yh1xmO`E4k4zIOBI^eoEE=6~@b!>w!
zIElit*f*X&4blPowS?=xx?k|l{^BAzm5Cx(p$npO;^gEMx%_5)eE-eH-g+f_8Au1r
zdCcM7pw0r@*;+X-%M;hV{D~nQu<swwZF%1iwGq8`CpIcLJ-lFc0j^)*JY>yuXUt4Z
zY5Cw-Fw{<ahbR})0mt>Ab<>pS6uW%($^MOX>1-kwNC&J(F!4b$jzPr!q;pzjkAGs8
zAfyA<<GD(Sk6+7kf;Hg!w`Mhm(w%v<d}!Klo2LCNypvGRu}?ZdezX$N3H^CPV}@Nx
z?~3;il2035zq}zGa6Y$$gqjTwie4lBYh0_OH&dt#>3})kEq#3cYr5;FRK|%X)_i^I
z#E=eHkGOYw_P=8)m+;?8t)1Xi{yaDbmoqq@8TsQLkRNY2tC^@$(fKkWzY@{``%ZrO
z!b6|)L^Bm5b(Rxj$CU#h9WbB5K>o89KWaHecs{cU$3FclgXr`|GtjP+x-`Gla~%0V
zp70S5(gAa3q;DI3j=R>glcO~)>p~^gH4B$BIIfCA2@g8jq#2d>`+3K0sN^FNo!xlm
zL51Tw;U<K`?pOAVL^Tl|I_Aaua(KVmovaOmer#^cQX@K{nJw3T@jcV%rsKXtIA*=o
z^&2gp_$&=OA+7f{2UBl!OvmLGBM}`R5m&14{2H3mPu@R^*4V(;M08>f+<a?~6mf<f
z$zJXs?>tA1=$uu&9Mk1_@OjZJ{VSXQyNa$ExO~8Ms`KWBS%^x#!&AD$h03wgf?`Mq
zoQDtIIB^WI9SvAG#(SOQp8lo_qyw%CvLp3XG+!@MPOzMPOL6KIz6_)T*7I7-EI9Lm
z!ofoigM@wEunjy!$7!l>R~RqkO>d@+x9cfCrTS^OoWXI)>CC;E$>dWj3$X~3iLMrj
zgml1hv6j%^@o{T<UvRHzlZY$MOB2zdae9);5SKr{S0Xb0B+J#28qwJrD&sM^$~D)2
zH+JVY5lv{<6k0yN>EpDX_{yYg`%G?Wu%`*6K{{YQbN|@$6^LmG6xAF^3<L@E%^)4{
zdR2M+S5Tl!TrT0aqvD3%cT>b69k3pOxrWhy7sU8ie^7A;@BK60`308`==hN*{GP0g
zyfI|eeMr0KSX&9{kOR-d4`}b19TpIB-sI=ya{bE3&;{v$_1OB!*PTi{l+dnA4BljZ
zTN{b!us_eQdK1j$c{9b~E6p&qq$Z+caarX$^W<tba|Ee$O@_xHHKYUfy-=TFq9^2c
zK%$0`((jQB-0UP;zgG6Q*K&$qEsBbiCoH&Ygycdx;J&fy<v~zxpHZ96d!k)r=qHUg
zqyzS=W7w&mnrS}q{c)ZUH9GS$aYW~C@5F7(ExK_kC0(}Vne=lz6KMGaGoBC~uYNfc
zY$Ut#cadnV64BW#x9N8|F<aQBZ^#tgaIM`N(fMq(`i_)fLa$J7*Gnqs54kv^b4r(#
zrpc9d?;~A=w8_}%;2j)XKHzn)=#&o&>wVIf$~W$-sg-cf)<ZgA-xCPJW*+%%l)irE
zV9%RpqaT3i?Cl*~SE~u~Bk}Mn`*}OiSq9Pp$0b<Oi{F<t_v_8ts?fwRi8(Q(1CFbe
z_r@9596PaShT_vyC*}UN{)EdJbf(?k?2|^Mxu%{e^6^jnP8ka6fa78?AQLuoGyU09
zB`@~OV$NO@(gF9M78VA}@KvFn5bIq$t?x}VypRq!uA{uRyF;I44^EDHsZQ5Bb<B>V
z<-@0TOzezo*>5ka&D`fHqNKTqj@(mxc`+Rc*AqkmPL5*s%C?A37ikJl%NgnWg`E?6
zxdJS|cp)8dUuC^h70vd<b@qKS#TE?{u5)J$EuSE7*RYnRdusf<7b=4y)QKw*9k$=X
z&I~+%Z&!QyDAaN57I-5%#M&?N&wjCxspg}7IQ`fmUL4Vx=Z$z-ao_jsVEG@f{sFe4
zol&@az;zL3%P`(CFV3DjI2SY-6{K7b>45W@=+u%QvDvuYXtcrjndEoB15lmB?e>?Y
ztu=U^_w3WR)C*(~9qyBVWpOuG8VvHt9EJa$cfdn*4n58n;0;#rnI6nuReChYQa=Kh
zGnmf@c5B___jJV(8V?1epS&dsfONohanZUe{zcKH<#<B#V1c?mE=@=Wtfx`eii(2g
z!{Uk0tt(daMlsZg&b@aX1K|<X<<H2p)fm{fT)T$R@?pJrvA@Chmb~g4VOr(w60S%@
zC-KWMF-^ib@$7Fu*ST9a?rK6hV9qR;oqTfm{`dCAUzMWRw5%*nNC(WBhR^sTZCym?
z;{~q?i`xvDxFNKB1P{2cT+=wxz3+V8X_)v0E)CJ~i=0aLpdhnc-;a7!U|s#l4AFU2
zvh?|WGuf>h`A*NdlA`1}AssO1fpQ&vx!BhmIa{r56RKkAtAl9y_}zDiXumMo_-i!2
zl;LcHT`{85Y{9QgSadXKBz1u~>CBCjE|3lpa3AMo^IZELE8C|9uDJJO7ajG?ARTc2
zM2;oL-0F@foxOiw^7LQ6Hcm(f+~=)F=yQ)LbH285Gfhg{!rz%4K+CydC%62I@ZFo%
zv$9FLgyc)PkPg`Q8x4l{3<9rx#Cuv|LTs%c=?&?C`HVHFlpJNFe%d(9TtrMTab6tJ
zN&Rye)4L#AoY8zK@L|sQyPY3!`G7e;3ct5=PSUdDhqC9l+oO}4^^guYF3yH<tB@rJ
z*Cyj9(jG^2Hv$lyCsShdq~W&zbiO19@XUnF$v`^bbI4Y~smnDzckC|zZ&yvL;cVuF
zbii?)@>k2yG26aoocF1GMdcq8t{*OEVqksU2|er|VkRXOfBh_LXQh{P5Yhqb5$|_n
zwMsgl622_qb$R7wdpx9b45)|wMcMpqd8eCByB0Df8L|ffkPcYS^0dcn=V#_<ZdP}4
z+4~B5GLR1VUS;_E9A3kz0EzhZ1xJq-*>G{leu4X#hQO7}PWFnw)pZ4;b@c6ocp)8d
zTpq58d&E_fytlS`nYxPRd}krY1v>J17oRJ-{fH<3#7<+oEKHjV>5u~bN|P#1@2w!)
zo@V@HU;DI2sTk4$>!}?L?Tby2@Z7xL{qxjUT(=9P1NKWXBW)=BU~b6eBhjC9w{8Yo
z#GD`ViAMX=;%v{%lwa}Ca2tZ{7uffu`RM4KE9P`e0(O7YJycAY5bMeJ3UjjCU%$Qi
zssFl)mL4POI_;~={z0Kcvnt4A?_u;)(HM4}g8jP1|A^!nBMsl0ug&u>yRS|3A^QdH
zKh`}13_gT{(gJPL&JT>`t27}Uu$~X9f|s2}dVBOlqr=U$qE1sII-Z@?v?e@s)s<gd
zeySL}zSPwRx37ZrkSu&zllU>GQ0y%~z~H}H6N%{X=(waYU6h-WZDlbsmCVD_M09%o
z$y+meyMM|$?>EP}{^A}rqLcC4l4YT>>NlUJQQ@DW+Z<iJX!!`2RXCOZ=DKu)LGt&-
z240UyM5m#O>2h}A#KpDNH51}o=?zUpr+=_K+n@Az*Gc(70uPO@JZeOzBrAwtjPm7O
zi926HrGo49x_Z#^X}+|Q@{B=4?!e}zZ|MemU?ierFlhc>+AdIE?pc%q!Kjp`CZgly
zB|tuXY=b+lQeT9WMD`Cgq9d=_xA|SGM&kLFSErI~<z`nmT0ZKTQT<it{hOU*gssEH
zgC0d9I&}*p#wG8oCd2R|6mbq}yPAm3nUwRr(wCy|aHNd$P+X`~phk51dP|z(x<opz
zRcI^g7?ciob)n@Go8qk>8@l)-)m6?oRY&AcB%-6VU+R9m?XtqRT2Y~^{<qsS5gj>}
zKeX>vJ)d!eoe)&p`BXp+>45h;Z{M+XdeG4r2Hm7Lf7-mpi2II~&x~_)6sN`FvC7N7
zL!?rZ`)P>IXN?|VJ2TDQiOZ>{d$ssW%n%(9A2zpq*YYZSix<Z9V?qR+kPdkLY{MjU
zz3Jgjg1L$d1@4N%7%`*+-hbKqleBH#-ZSi;{J{40jRj3tCtA)*3Y<Tj_*_U_+I@<A
zQp{gPB07~Z<UUg>|8&}uGKGR9;$$@;9q@Mt4y~Sf4eF~$E2Sg*&l^-N@IpG^`Tjz<
zDkxS$+RBw%V`=2ZYvI`rw0znEaiZ#hI4!ROCyoqao^QE`4$BX<;P)XtW*=H2gtF>Y
z18pH4@On&JDk?O2lDH|amB!8_0k6Rf(gE|?P7}$lPWN%9sa<h0^h%HCM09?wou_4a
zTFbZ6P<L``oHz#8j+S#B<>jCFX4fKly64W~+nMsDK|0|6^P%dXWHRG<NY=|-g1%;U
zdKX9sTwjuR*bJ^yn~um-YhB9y7fL1$>3}&W|GRXKi7wY^pGDexRcd5%rwuJ1S>3zr
zuQc;I`k(S`-M_GLvJ%m`%tg6j8OCDOtD8Kf9g||<jp%%R7iGeKrt<C6p>JEq1ny{x
zBRY~5H7xJ0i$uO!{(NkF#f@X<8(cnM-#vNWZoD{QNkFk<J*F<kN!tqPfc<*E>>Kb%
z=S8&Vcr2@)NVQrhq7&PDvVJu2se|Fijw>1L(Qe9!&h5NltzQc%`OQ7P*?r&dau7p0
z;J&e2%a(b{PD5>SdHc4#Tl^j#qyy#?D#cADa;LbLsQ>g4!oc?J`mb>P;sc&b44vw(
zUSxEB!M13wxZfSwRgYLtqC4k%W;&IUBHVSSwk6uy07M7(f|>Z>g!{w5`{$m1$}zK*
zL3Apm!+i`KX|<zQG+kC=Hx5v9HsZ`4*$H;^2}n5To`0*n0-H0~FDuu>=KUzsp-m-?
zBdcZSasnXx1wI#bo;+9-;~?+ey>g$3e8~i72I+wH%=pR<-{jsuSE+>8@u!8Tm=n?g
z_vbOjSEHN%s6r&t7@JeBYi-T8!p%dlo?A<kvb-IizomNI7hZfK{x28N!6ol>?i6Sj
z(ogMQtB7>qwuN-S>qFPfp4RzO843bB&wR?G?WHs!9dKMP(u;eopFYmHKX0*Sl_BL%
z4e8JT>-4vB)yL*#cRTFgL8I1_J@_Y%d|w%dIk5GB<2rY1u6A$UhX`}JTG0A#ZI#m%
z%IQyvIgyBtjpT%Cghucy%+W-2Jl`#p<kW{fGjm}hh!6IqpoVk|fPS5qW>{9Q3M`zI
zzr1_;UG=F*#Pu~G&~(psI7g^wyI)tsso7B<(gDw%QA*yDXY@Zy^}JrRdelz0XhJ$*
z-`neJE}o?s!z=lqen-=ri;x=90r!p5vQuqts;lEqzmTTep0uADgj^TkerVkJa>HM6
zeu4jP{1Fp(C%;Na2drmQ_2j6@o1GCNzu4P*-k&J~ARRCt_YKKAp)D&GxMLiSb^ikL
zWFQ@ITwfYxlI+jD)p+hCq0KUKp@tLE0qZet|6&~)Hp}UD?k#sqShx`maz2C3fX)@R
zL|>n!+ce#0p9iTOrXe~BQw8~FEGOjTbyvkNCg?sgLv#*Z%XuTKmt-a$rmYkHy|2KD
z=;*%vabIfuWn0v#$iS+>DL32~w0-PS2h+cB+l8wEcWN)w{JX52hUi$1$;NU!Z=YaL
zZQof+zxK)u(jf!(A3Dn?WT7-|rqoU6{Mr&`TU;O=u<uTIL~q`nN+aeZ><Inew~b#4
zLOS4lwl}@?bF6p1iENNh*k^m-H8rFI)+2IdIqa?XP88*WjISUS6Jgh9xPF24kR*AH
z%Oo|*-(a>M3y@{<ErxW!dfX*O?rb~iit@zk8t2dq=(!*|8BG!S>o+Le=hH`wq+in3
z2qHQhnnhZ{lVWFO2@O+Ed*nS{ZHCJS92es~nxjs-=Q~*x*(^AF@t2Dc9dZt-AB{(H
ze|S(1kx#Oo$aX<==FSoXzp4{>^07H5aopfiiXft6&053y%&C4X=li3(bay^zt~SBt
z17436Q`Gi7_-HOs%}eK%qom)6T94SVu}4k<A1{)d2c8N^<(fdPCtki(BRWVpC{e!D
zWQ8O+1GOF{{K!M<mdt<qR1f#WZ+(k~tp}Vx;U$rw3bU3)#H4RVzl)bU6hr0=I!bm=
zc&^hAny~)j)4E{XPVa)~@TCme;AWh6-g0=@2~CDC2_iZ(Lj0sQ?T__uUW;i_ZR#3Z
zZG@XY;J9p@CCtywd2e3qOw^0v#HTGrbYcS4%L{p2-UR96Mn^-AKXyTMj>HV`Z4wy-
z4pI1|I;EGk2_icG`vbEh0`EWii3aTptNA^Av)X``&#8>JJ?(XF_eiRzGFNwOIEoRS
z{xd5txn6%i!SeOZOc_taB^N~JAz{H$US`Kig8U=rAKw#o7DRNY<<lR185q7PYWv%!
z@6*|TtMzF4{3uJ#<M_bO-yPvOK2)NeTa4(0efUM>M>>8k;i8OuSu)R<3!)>lw<vET
zZy&2J{*B8z-%no<(HYs;YSn1ur{LMW|L3F9VaIA6T0Zmlon}KhKB!A~levD@`(9p*
z=nyb<Msg>(kNza)%=Ffm5p_Xy6wE2v=?s2<ieNvppfvfjR1ncg#CJN~?6l7w`QyuV
zufM&DtF>tP2<SMUJ;8P%u3|Aq!t+|m?P5fyL+<5?Ng?|K{Z(HBhfHb)7er^ZrhL=r
zVfMJ;&$~6_t<E<D5uIJB(XmUcRG(Ct<O9dwb%m^cLd&N!GFaMZjhDe}{4uxNk(Hcc
zM2D&PZOqr&5c!)~CoA$Fvv#{6I^w1iVb6V5GynbCme(G)kQGF9<QzYrxih2arQP>x
zCP;iJd$k5FpDbN5LAB309h1s*pOXw!GKvu$-FW9K9YqsINXT@#g>FBZcY$=k-yP&q
z=6>DUvAc8Eq+@>cuZe*Sqys+pn^H*cs5ZPluyLD8b$7t{9xtQ=)`Pcm?v%HmUn6r#
zO8dy+-l?5xxST=9PH&Lj(jA|NEotqzXX{jNE2INnZwy8F*M-?tbjj*=9=($E=uRl4
z1Ku~8lX;xgS~nG|>aBIv<U7@23+aIMTnxHyTtiHeIc9D!JJk1Qn-|gnf2Y2`NPWL!
z;%(e@Es?%gH;7j7ARVxta4)sy*QF2WemK{epNjfDSziU$FVJ}xMz1|zl=Yj!kAiYI
z(9<LU(gDXs%%DG}o%=$G|48y2KJ)HveMkqa$0^{F`gj3Z>e@@|8_q`KI3`5Lxp2yC
zu5CE2R8sGQmA4G<;77Q8!1?^wHO<p*E>U6dhx}U$;tS=ukPbL53NqOsBL5%LI%)n~
z=Z3!O+d?|ve2&$RzsoMIU_T<Kv2$r>qhA@)0qaR>f3x>wI3t9nFSA^c$M+mDqyxSO
zd-je|!%1P%%=h2LU+(c({n@F6%NeYvChh&6X-E3Az@Eiy1H%oPN<^oLx8lTrrC!UK
zsNF{QRM`-3NC%wHm7b>Llf6Nbkqa+kyRQTYXhJ&RxGwIdzqu#S9yjlk(U9%Po<a@j
zfPKH6p;nMbd1J7QaH89k=<MUw4{$ky<MJ@JFmerz`g+1g=yERULSrkW1J+~tR5?Xd
zCVfKW{v8Vg$*j6uNC!N>t{Z+f>x-6(yc_7~c07jRWF(^VB&0|8lk>r^Y*E5~LiYL=
zZ%Bs(cn&#D%lXE-mhC}W)|(&S9irD^9WbBABmwz0f)#}i%m%w26(@}8L)HU2HH_qe
z{RFfx*PWa58kZBQ#UUL^U|cUM9a_4x=hNqMY&D<jEk84ZbinznbM%;9KAT8siq(dC
zGPB8hPDlqFm*k10JgN~qnzou6Nz<@b7w{k*upX6w6>F|)+*`Gh<^I5bM@;K0;MN7`
z6el&NoO>fds9?L^Vc1dhAOO+<&kGkzCA+#Mj_zxF-Sna~gie}}4p>hg>8-r+xW?1%
zf+L(av#WBbA)Ws(=ScMl68^XJ@%jzD<_|^ER?E@yk(<8uq0}^klJJOXp!_TP#bQK<
zX)1l-e5uW~z<zua?pqm8T@an1O-nLLsSmG4X2R2is}i#XAssNE3^opJt#Xe*=B68L
z9gj%Fs39G&U!}_o3kPMK$!kv?Z5P`L61&RKa*lWv+?l2FIiB8Ff#P$=)rXOY4r$X;
zPi?!A;T&H9n}znh4NXKx>9_tu?wK^#rIJ=H9qFL}YDfp%=WEW9#PKUSmpl+@`*nl7
zv2dppEguG6{#A+-FE-C^le3i_s#8@$I$%8%S<+%uq~8rvxlgS;W_;C`2I+w7-8WNe
zPqp=2aygp>tICJbeiujwoQGSC-zy91SR~ZLDYgm8GVL`X9dKOjnkRUl6S!Y+ZNirz
zuheo8hjeIx^Fq-+HezEm($j$AL4xr4>wN)`4md8^!GPnmjH#o6V+@R>qFiHUh|Xz=
zG_QXoV!c@>brYQ^JD$iuI^gwBuz#>IZU2Vj(8L}5DSY~1CP)Xo?ls&zo_|xO>R8yB
zUMo$Hlp$hB2mBrX{HYF_CJ9kr!J*SP8#_gXy57UB3vgVm_>s94DnScO8a?GFR$ZfV
zAsui&=Z01LO#KObdf#N^d*R!JXm3adtVePE^;*`Ki^FAU{S_B8#>6!t9dJJ1d%<%h
zI`8~jW6BKtSa(fpaY*MlFrV2cK4lKM;}`RPiljCk&!>olbijQ+5%<+K%9D4-#HjIj
zy&Z!J?6|<3)z@y<O|?#)9KTUO)4+4umJ_lb@Orh`fzZb`os3j1ge5Wl1;a;J2h6!5
zO3$HA<2%Lj_vPHPRQry^koAE1Oim1#@KFb;Scj82W~2qlw3filXVCfdb@{S8!A&ne
z5xh&HQD5JNB0596CQB6(KbTnhRmFdg1-w#5bW*eN%kL*#2#gE+e%Fer#f2Es0oVIx
zi*Z>)OWwa@{kw)!)*GZ<#c=t6P65As+ENn7oz-WqMVpL8+VPMM*!M->B&M2oCWc;p
zmim)V4YUIw9k5?#nGe2hPQ8uJ@DSkI)J%<$fpoy{`>~{`1SVY)iX8iynqYfL)<GZA
z0oNDV$Zl25sj}UtIeCw5|6KjW3+aI4N>FfWsed?R5MlC(=0n|D$7~T?zrb_Qi?x}9
zR!2lE_wyR-D;DdJR!9fz`@FHzO$Ap{z1HV8MuGjO{zO7L;J8+w2WMK|&HLT^YVBQ(
z%FQ)RL}x|WGG~Y*fzOts@Vw)%n<3PQ&JtNMGcj3Av~o0!|Cz+Q$GhIa<qXbe2mITt
zj?>Q?DGKkhsAfK8tb}yHe55^bF2+pSJ0BR2T2Y2-R(V4@;CxmX&<~=g{la89>3Dk9
zvUDmE(gFLPD=hF{@wVU5jt_|jgVJ)E`j8HI-J-9tYjB;i*7K%W<6*(*yooZT1FkQ%
zTg0ieD>p`VEpz5|yZ_u`f^<#;=Q87_?d)H?t%;B)%JWYdl8sg&9k5@D9aF`_M?YSD
z^1^L~%_v8(7}4<?{;lYoL2<i9Y}TlmG9l9i(FwX>Io<w>qcUJXhh<~u7n2~OV_WiC
zX6N?lHu0-3)-GNz`nXyMw=Tf_M@qz%kLfDoz2oH%kFriRigrOdV9uPY%fvO$`#*Y)
zMigjP$0tT2I=WH<d~PCRvZo{zDcfRZ6*M6oa6a4fe<N5P$s$n@zvL+#n@lPL>457i
z{}}T`aR1hYGi`}7hZq0g6GJ*+Jt`#n*|+R>ltUBMV`AeZH+Kr)`UTeWQ9-fnoO@vY
zMuK%zI1RB!J){Hn>lUS+wCOdH;F>O~l+bCap#Vq+9M^Zgi^m$T^^VpNoo6Tgc{acW
z(gF943l?nL3>4l3jFQ8qLtlucWFQ^z{ctt!6%o;U0vmpA2C2lMG#lcO4wz3<6z@ap
z==x8cR`&cpHMhlg^5OagI+Q=RF5Zx<O#e4${-)y0&wxruhXvRVU5)S9jG4!a5<h8B
zBfKU&2AdCf|0TL+OnPjL_+#ofQ8mTj@|R4I`GDuwIsP@J&A8OVnAa_AF*fh72tqnw
zK4G^Lu7$nvHaA#gl&i0Fy}b&V4|u<`uyoS&1EB+7C0*ijwF-|PtOM4gRdAt6WrmVv
z=T_lM7eaigV#s<xCyUzemsred0e_Sr=g{9;Zx=-8@-vD_@%!gGd-Lx6nrpaLAqeS!
z`}_c1eAUzInQs_%Uv3f9@OM)~I^ehjD_^P+DMhr_yR~JcJa*IRdW*I$I&rJ#RWe%n
zyAzsQjp{=pA|V|vU|pEdzA#eGT(f!cYd`(v@vq~Wh~uIc_AmH6G`9cGzL2`@6{9F>
zKC49$wr@8oUu^_w?;ls>97WAXLI3cd({;NW7njfauxbY?!R7;guW32CaBM+^pMsa#
zhsyAZ??gOg&fvL|p4smvY1#RuL^CZ>@#6@K8KeWw!?6pj6@Lvp4w#1{md~d+bjm<F
z;5@AAJuo$H%ACa<JVYno?)APq-E}25LcO74epk2pJh=G`=0g`?d9l<(d@+>hSWk>A
zc~mH(W1Dy=S)f`$ggKgsPR$+sY_+#XZ7_!k(V?Efe=sv3;fy)BT(o?&Z<fDJR5<Y(
zb8-<K(W-?AKgnA@nB#)zTz&APj50no0&~O>9k(gV?ad3!d6<KT=md|n<*^?vlf<0X
z9JHJ#_H4A92OI=3Clb-|A_+*0JHhuCbMz4%?u8ns5~Um!%;7|INPmB38;qsl#GKh|
zw0xF@ve@4HCedI{F{1O8{mSf-D(z^@@kVswyFLrYG|(Ahjtru6pS3FalYA#V<`5$~
zu|2BQI(^$ZnA4Somh*|n<>v#>wcue+JfidXX~D|uS+O<DF++6T$CbA<c8PId4lkmE
zd$%%TamzXrb5=9a^4UxgxFj4O_}_f4M0CV+_gtD-*cPyQ0uUYRv&^|O96qg>qm1Z0
z!GB2FCBsC5In;>GO!Y=MKgn_~<_x|;%Q+=E!h0_9^Z@3hAv&KEEjhiUJcu#J7SRb8
zow&KuAFg_jZ$e|$ag9I_(gE+6kMMEaO(d3T#vD9E=ik&V9=+LsyO`6J0hcpa&!76B
z0fM$CUoa;P(U}Mq|3!W1(26-Oh)!Iz<c&HVfmF<qL3BLZ6S*a|X5V2BHKOy1=3`&G
z^XpN}!KI_+93#IoNbp$aD&`a;I?mgf?-h?#&|^*jqN8K9Syn*gNsKv~h)z+>!tRjV
z!3)gcM06O~1r?G{JBDM<Y8qP3^jY^3XPnxvU`{=vQy5zu`sb->2j)bgI(tiZb*an7
zFvkqhsUN?{w;S`x33CJy9k)G>lP_1zzhe#_qC?GeS=;apnLg%prK0sqw{T$oR*!r)
z=A<Dy?mswnC!?c;FvkVaF&%$#GlIkTzj-Kw=v;fyK`&lDERNMfjp!86JX0a$p)A21
zTnbvwW*0=QrkqD+FsB&Nu{u5)!@J#_gE;|+4jG@1T&$m?9_DBwI=gvWs%-k(fm%r|
zID=dkd`?IQd=4OztGW2hnOBHsH&K|nT=>jvGF;A}lb=VMe%$0zljmK$imH%`s$xW^
z3#T4(eZ-EL$at0Q9v2a<H>3kTZ~6I0N=KYH=QEFugGxa1?KN>kC!azj&g6-B?cFRM
zL0u_D`JE)Ve876bN?(4PxoP<(*K}LUIN^zXC8AU4H}3V}xxiu#-Tg;dsSn(}Asz6!
z)|y6H_W(J?Mju0XhfU&{FnvU)<w7JS&92P*rfTUVd8MT}aYzTe9=q~XmRHNcdgGi{
zt+?2m_kP5X4mc0{3D>OUGvwrQN<WhQOlNr0m5A1_fb^p}c)}N=HGeLjQEjJHibQnw
zHESrP4%W?bo=|^iv@v?13F(0E14N6-#2ehu-}>O_B2!@;$t(`(fPGIDQ*58wm|Dk$
zCl?%JQ{rTTbin!S;4al)s=YINmrDGnKm-TZU;<jsvOY_5>aqOVxrg^IbIK~}#zQ*b
z??m5LPw%g%<=<3I`;shIjaTXd>45WR-5p2h^)ay|)1E!yf<);(aYzT8&x88e`2%9b
z1H&nq{99oW&cuk$(QlUm8T)Il=tSkN_XPLJ48DfT85~!RhGe}kBUAF&BP|KJlMWMU
zkPbM1%xsSkYZhtr3LP4s-qL<C835^k^*pJ&8mj1<;Z_ma-4GoA_l+{71J1+jA)UDQ
z+mXYf1!?l(j3J}Mh|W@hUH|K0yy;__e5NbwHoC3xa5;nZh|o7r(OL|=Bg!^3HVRrd
z3WapQ^?t@agkU?wu@*ZAT_7E>9x=iTir@Zm7h>n2Afhu@?=mEBETV*+gR609`6$ik
z9q%@^b;8cUVnj#BEA|$X@3cR54!R&Zrytnnm&qo+%D)=?CP&!&KoHT1|B<d0Q*<J2
zesX2`3llN>YAjqn;JQe53eZiI_Bee1E0OzpT-m=$L}#pGGd!#Rlo6M1sOCS<g<}Db
z4)}ZAw{St~WPvV4%`Ydc!e`Gbg+e+E!0(<smuZLZl|?_9P129PkRA0EHXm@GA0zDg
zF1R`*dT>}h`Z^|PwH2}+@H<^sym2&<T3o#E<Y!mPX*kygAsz6264JS;E{)=%88T|I
zI<2qL<goRCeJ7UlBUO%LK21^fFNFQ`Pr69RdcghpWP!aTkrKu0rnf!~)nQKNE|3mb
zk2h(&>D}WSBt0$#4I-Slx8jfv_`Rl2T<Y#DI(8Hxw8_KI9-Zm&hIGL5)Kg|4+Ve+!
z-*@jslP~-1e9DjxI4&b8Q`>e{`d~wA+C>iU#FNyJ4izw;7Z`h0z0)X-E=vmYX*gNy
z%RoBd{(QArrE~PwJV%j><Cl$U!w-0n4%qhqZi@BPExat_uT*+>!}Pmxui*9{a6Sh$
zt2bImh}}4M;X*lqS%_8_qyw(g=>a{f)Wd|a;K0bspA9lKav>e?9F(h!@KVT&Ui#TB
z|7h*uf@mb7<3P?OoDhF%B~g88U0WkA#v9TB=V6r6?0d4R9gCEo9?uL6wAz#*9q`|=
zTH$K)=4h{77}|Oyzpvgc>;mb4Iji-u=@?K>H=kIKO2~BmNd{XFI1dw7Ukk;Z3yy3}
z=prOeR`()?tOs0QL3hok9WUFDERq;FyD$tEb-jd}hoBR#e>SUbD4tr&prlScxcFy0
zqyzSgCa$Vt=-qK)mq{Yl9;20uwvY~(kEv`nZKG7*lcCmgE;G{R_PmIW=;+~Wcb3Pn
zlqQ2(tb~okYz$mJVBekCyh;u5ibvGOKBx=*`mIwB>45JawzVBKuo}pt(`Pmm6=LD&
zsDyODeZwpsmv2*c*Hyr=T<lEv&_phz1CHzC`|AzYwK5Y|q?43{CXapzfONpVTaZhf
zFG#Z^R{53qx8ZV+q$Z>T&cp6kqbe2&$L4%u%YNOasBvL}binryw={&?Zk?|3c0R-W
zEQHBaPY}`p=i$?<$t|i(4(`PUc^tmM+6}AGaPtRr#ukqiwy4KA@zrrXxygZFTMX%d
z{Tk5zmK8eLAno6GT506nG<_(f1744j3%Z;m9B$ik!F4eg2nW53hjhTc>kDvl@#YBN
zEs?z-$sEX-vPE=kBF?!yGI1=LSjaI*dadwU9MS>jk6b$iYxat{q-AI&vx29i5FVrh
zuCK2)EYBr>yNNk%ySh?b%;a5-g6lhYo<2#p_j5Kqwi6>>_;hTLYHtwI0ne|PY;AM1
zVuzQw3AH3Lk}nys;{yK<g2??9P5=Ja@#KzX5B4-i)bJqJ1$aHSCz(wd7vP`2L~hwI
zPak^>c71`@QAaM=)zyR;K6b0un3aosVn_{H5BPrX80E*|#FmK-?7Qf&4!BNhio<jh
z)E(t9rwelafDV0vxtchYn+N7ZB03INZ97xz{t9A_CZf|5w$xWdd;2ctP$N2NhHVd@
z&5(7Op7bFRBVWDW1v#I={m1;w`J{oK3aZB&i{q-V_=9ke4w&<C^JE=ynL-}xjvGeX
zdo43*h)!wa#}9mOObcjBjZQn9%=>GG=!812Dw8oh+l!7abG{zct;31v>{&l+99T}`
zJ>@7-O^>7bjEjWZf54pWCv)-|Y|U6Ecw+iCvUW9AAsujEea;>5`Hw)daX!g|Iw{7h
zzbhdfuwQP}j)6g`0^8!jNwtC!+Ed<;4tNd<c*tkXHU({O&~(^(;&S~oAsw(D7avo@
z<!%pIg1nWl*^G02)Q}FCPpnWhzWH?Rs!hUCg<A{39D^_5`UN_M%)aiMgEf;fZ}L-v
zRr4LwARX{r_A6KCI+8U^{XTJ5t<^{8u?wUF=Hqa_(Bhux&5Z3ZH{<YvsxN|&4mhq`
z8`M5;KFNNIbq>m7jW(p;iGa%otjEcL`GR=|t;4TVr}*EiJQJ%#bmBimWQk6<3w#Te
z$=n`ZIqHq*JYMGgF<;Jfp#0#^r>pmJkBLJ%;5isNJ4M}8hj&HNg#SHt`K2``NC#XO
zx`tv|cRS-KM5e{Fg?}4Qu7;!K?7sJn?h<w2nF{|ADd`%1vtmT&7Jd3n8&;egd4N(_
zZaH6!3!;;3qqxKM?YPI)AnM*|XTnp0kPbKx(@l2_$y3JgO{3xmxwtFXcAlf<vu<0x
z=1`ibJv$?*hqra=bS0wmp}Bu`t@6b6z~c|5e+ivz^G0;$o>>$A$QBALmgM=n9Z@YW
zj_9ab^$-7JoN03<?+-f5vx>L#3@x8TMd`bw0nq~OE+d;)i!<pf5gprQ@o&zoF_aCq
zi4RIGqMf`EosXj~5rw7IJ!?nl7Jl)LWQij>mNrK=uCAwE70X#>VA$dv-Fb?ZPlNSi
zlC$4yPTh^r=AZ6RBdA1lI%f`T{6_cBW#<{aTBQ#p^G0+yMngr<j8(1k{PcKpSj~1{
z9MQ=cTiq+!o*#SYp38lPFTZOi3@#sVAIo}mM#<E2Wd7CZl{cf}t~One4tQQvm&Iqj
zmq^ud8RgKmr8_nriRfH<o{F<|)v+|-^60a@;m5Cu=(rXPmnPF`<gB-yS^gYCeMpVy
zJS@)jDA)R2rIq3D=A-Nq)D?=B^LY2yVNL_LK21h3a*7v{2f2_Ac)z@E7bqaN97z7~
zBz4slWm5BaNC)g!XFvJA0L{COj%k^LpbhILeMkqq@5X<~Zl6+lhDYjTZ=~O$nWqe-
z1J)CIeg2WZZ`Qv+n=Rqbq9N6IkPdk6bXyGS5ex@WGkh>qkYoreYJGy%ujiI2C$nq&
z6ge)_U%cFuteOVtfb~ol8JnG=GjYDJRB`XTa0<CCqyw(gPYaxnUn&co{I*nJHpU;N
zAOq=u&l6-FxNa89i%VVoK;qZ2AW`W8>45#JG6=_i{`XnMXiR8Is;Z)*Afh8-{r0OT
z>0j%Iiu9TN7RA3-L*V)a*7KC^(Mh8rckhK~E2-1EZ;lm1I$%EDmPxNj&!6x582vr?
zfxr<q9Hax*BR%(~O>l*x`<6tJka!5qr8Gq6Stsjub--n>^OIA2X{5C=W{8foyO$LO
z<DLu8qyBd8sv&1iL?`ti%Z~fK9APl?^yBn{3uU-qw0<$=dOYQDZ9KWcbI#+Y^agzz
zqEm6LcKYj4iNepiT+9Cd`y*>+h|cj(H#5(E*{yS-c*2lgGoHkW=%gB7e3j^?6>8ae
zvr1=hkr@|+mXBHfGJ_4Ru~Mnd$fb^Lv4S*2hm`2=uhi%E3eE9bFZsHS`OOd=8i#4i
z%rKUQCw2R@7v~t{IT4);sfDg}yMETUkK2Y{j#%Br1)}A%O}U_#VDim3o8LIS&af{m
z4bkD^?|C-YoI3Gw)1CX?Fm;9*q7!LRzCm=b$$3XL#frh)#Fi7$iB_dLP*+$T_uye^
z2*PP^;U1&qGcp`jA5xxWdQCxLw|>z*GY!!xG~BnMOFd+seKN-O>Men*8KScgZgL?O
z@1<j*`NJ~fw8KeGNC&)sXMWgp`2+Ja4YGY--PY-I{&<iMxIatYmCb%M)g!i=W~ldC
z^Z2X!M`$@WCzuHB&kS*I<o~Pd?q%i*Ky+~a69K0KN~&%gb}8Rt4W^WVbin6PoeM@E
z9~BCJD!g&?`l0C;5o$<>8hj7LjW2w!UnsYH*}?F_H@5_3NC&+Bp}&7^sd2pVmfyLm
zWWw3Mov`(Q*O~5`>N7b09Y2YXgy)|<O;79up!KV_EG)|5{t_)4<Hh=-O{JnrL`TH`
zE%!|x;{%sedH0DrQciC~r`43*_jaPDjNZ@}@0sA=*5Zf`>E^GWjY3Vkd;Gl`lcqP7
zb{-<;Q)F?M|M$ZI=F0<ApWGT%D-oT2>HS^F9j@$8nu~Wcu6n9^BRckmQ7`4b#g1he
z%c{&=AQ}}%bUx=bnd%)#8c`1ljl3l0kKge}%ZL4~g+vp@r?!2ud-a;6J7SfP4!BOG
zEoD-(k9S7kl1=laY>0$HAsui(WQ;MMWWH5eboR_R2foR4r7ffb?uV`QGu-`xZNCZT
z^Oik6nt$Ylbinm~nRKb*qP|#;+6!0p#DOk_RX@0#!F+DGxQsI07uhz9#eF;O>)2V3
z=yadfKDc-xFQ}cfIWz?S-Bcu`1Lkv4pUyb*d1m+92lxqzKRC@aAssNEu#KpEiBf}=
zjrQ<MoEm%kOpp%P_jumB`(2Af>jvEvNBu}l-F6<p<qX!t+Sc<rdPY6Ey2yrY>srW*
zdPoP%Cz3ja>d;`4kzb@RKYSwZYyhJ3m7V>J3f{`ZwRQKHKeWRqWFQ@ITtcrIpM12_
z+4tk(98eNaog{{Iz;T@sJlkjUidB5g>9n+h)}^`D`*1mfPPf@C<;Fv=;~tmAqO07g
z216ko@Hs%K$TOX?4#8B8<Xo+RoGYtlkPcW+!%Jp0wtmG+M5LC|jDk3BPDlsLnTT}3
z-SjpMPW%(;d(-CZky&4~e7cH$JhFO_7gZOf{weA~Q&%pclh9DosG{ED%0$H`<2_V<
z+ZNGzHu<#e(z{Rej33+w6vy%hcoCg}ZHqMmr4I{_+q|fnS*z-2ebDk5n7#8dxX(%2
z*-ZJY`EDI;E~0Zi=Aj7p+)#E$a}2>Wm1CGKqyxTRCui$-HR1%nJbw^n_FYB)VKYbv
zoQI>M1%l)<Epasut%~ta92jsyI^cP6wE6PqxU$Vt+77q7Y$awJR=v@37EwyC3_5mO
z#3VCvknB%=LouQwWFz@T!?*t7MM{pv7OgZg7f1&jmq5fJBgJ*6_cGDqd+jbUvNDhk
znDct9|5h$<amexwSr@OXzq9cm9k8C0@ddOGJn?b~^4GOaN$dRR@<Pj5u%%*R`nkoE
znQ2OkSpWLHNJQr%zO35hlyukq_)6+vkKHy+NC(`<{Kfjcbe_gfvva7sJ&-!u%LM6w
zIs3@y78qrm9>a?~o2=C}usP_7mXEpS>Sf~EpH?KdTXBK3qmSbu9k5?qN9nf(@P4W?
zpD6j$VbE@73+aI43V$zZ&k#)P7PfRM{$-ln6<$aOtmn~(GbS6v_X?6{HE0`0t`h8c
zz~uv;gCSNQe(w-JFt1H$r5gB<@T?2c0mpUQ=IKsumHlIuI`0?Lan3g*5uNF*!^`)+
zPu?1kycV5aOZQ$A(Xnn|e?)GydFE{NFk_4Qjo;LWj=$Py+=Fw|^YVCn#?l`sBfH$;
zat8BRSFnjKkUUdT$bGvuDTen?B%}kbuP;J-!JMhTq~;X^Xz+`k73d>6EKO`b4e)IG
zS}pEf%lTg9%n9j$<8nP$Iy!s6qD3}3_%zJSEe3ZFEuRw{$t}X?E{Mg;HBDKJzc5Zi
zbbKD+B`C_;v?-Fw$m{;x?l*&U!1ZM_aqYu^?+cGsMYdK0p0%Tbh|a>{b;buX|6D3f
zyXnf_1v214I$+MNh8;B0Y%QX#OpSEO<~Qo=-OzIOr2Jb~U|;w)vU9MVzK!@u0Hg!X
z!^zF^<MMhB<1j}V(K)^&`ZSQQU><X*5gld|+Yv+EpW~P_=n9t)I4;K|#xKcZXXr2|
z4bf2;;c?mjx7CX|wusJk-%D>|-;kWa96?0qiUuzF#lvV5%-L~4%SSaLd$g_p(h}y>
zBRZoo_&0-!DequTD5Ar;8uG@{`*sE9Xd*gETsKF=lv}1ShY8Uk&p*=4r}(G{b8yaR
zIS>5q^e_*`YsZ{iM90N7OYXd*LOkZUAUZyU?%`ux)#jKZj_61P9e*aGXqAFFc!-YZ
z0M6VZa=!(0TAk2xrt4pd$!J_#$DBw+M{a~J_&%?ZBIf8LI*SH;xG(kM|BZ_i(UGZ4
zd&e&2sDafp>xh<*1Lq0zWb3O^m{W}CoPX#sLZ%-lgE`)aPKf)_=pz?~?)>#y|1t9E
z`Iro(1D>akpJk4_&#N5696UsaL9pSw7v*<$%&ET%mor#TErlGF^_YYU<^&)*kFGO_
zX<fNG|D3zO(c^vf8yQ5$);TFIvn1rn->HvsbOMH?c#sZwp6+}P?zrJN9Edrs4siK^
zPDR$Nzb(zqKITLsI#0zy7PZp4i?7eBjL9yGROmxG;Pv4mQKXh<8-@IuGlNadnaT)W
zNC)hD({fhm@9v9hm@{h+mk;P%mZ)1N&JU!<oLod_^@lF0LL4REyzZv*4C~akEu!;N
zMLI{lH(wHSco7}JN1rb7?S3)GoLM`xd~!PcKOG%vVDO-$>9~GOwk;RYx#K0t(i-?P
z1Dij#kPbMX2eX<Ar?Pi{V2&W7L+%|Gc;HK`kL9yti<VE;BcIL_Ml*((Q;Fz^@#Ya_
z3$MsxjyIz7Q{KM*LumL(`)Y=aeaXd(;)qVpSfP96wP0!N?{Vzdpyi{ea_AJq%bn&Q
zcAd`Cui;81qyzrllXC@wwcA8zlO`ulPfBr{smnl)3!Fdd+*ex!n0p*-VtX8f^rA(H
zAsz7VpO)Ww8aPUH$&_EgsV_QozC#nz0rx}2V@sm{G@qMb{o;glSb_H?*o4o8pHZyC
z{S^<f{;2aQvl!B`2AskfJ3`jxA3t7``^PmtEC`Q>+@A#jC-KC7>_x-PleSKepP6Zg
zzU+cL2f^>;P;PGPH7I}XWJ#zKu@E`7JP7H4zZY03I2^L9zN#<bs(Wl_(?Jbe5BTrw
zI#|Wh!yHX+<_s7`*|Dic;vnk*e?LvhC5?Mztj6#9N?WB&Y@V|o(HZ_axxSQ4BH=6e
zQOo?&^mH1e13u4;vs>6=ujW6X6<=>6J+kcL4e5aAsqdm^_&rU(h=Y>XUnsIWro|y0
z@ZUkRayH1PcrK}D5*E40Nf}a^K|0{Ll<N2yGCO~d7bkrrr`+-tfUO5~8rQCrou(ib
zo|rh}ShP?pM-5pI`2IYjd5ZnHAFoKp`c+TokT*u-K|0{N;BHebbu{~IHr9SAg+=X8
zEit46zSs0}-P|honxxh1iK%RYOaAPukn0_En8j|Ltz53u#=cK72<d?HCnI$KVSGcB
z!qOp6nPv?^9_;=DI>!k7kNPAwu0LYVqzb<Cha2{K6?FDS-M5(gs>{A>YH7z2e-UIt
z99KF=#YFe7h;i}OgNwX&XKe=&uj_hORQf8p=i+;~c=r@-i>%`jomEwnvpwOTFSr%T
z9eefi?OA<9Cow0>-%4G?-+o8`BLBa9V<tpLs$NrnFgLHlvS5aqdzb0YAmnu&*e|Cl
z6^?WnRij-S|FL&3E#%@6o%Ybo4@L2!rS+ou0)rBx>H3I{dxOt>N{7!}%F!nxxr$Q_
zOpp$E-7>*=^dZGrfeUGgawng;U(drqp6_5jM=m;kz!heeHJ_*9NnT*Tng;2B^*GDr
zG`-f_(Rq~PMszxa=awy`1J+Y?uD36$F5#xHZ~sdA@totlhz^y3?Kj(XpP6sG_M2Aw
zq>pAHuQS1V$|J1fJ`KOfk?v$!q&HJ($c1#k>pJB^X*<$wx~nBUl9gpb7gD?-9WdwV
z0E;hUb~7ZHBZKH%df!#@g?gvp#k;)e+?}NkVn_$fhjeuLc$<HU6y~&Aqum#@SRJKu
zm(xu(?nx`z4V~W)MRb~lZgHjwtDM=XN<ZbxT=hyB(TO-cUgVXfniz;Tq#h(H>_d#`
z<UW;u?BjVIf6!Qg&!1srwABhNpT>s`Vh_vwDQj;<H_2~pO@<;m8e%z%MWNPJB0Qhj
zgkzunRfcrH`8>wDa`Oo}f%UlHOSg+cL!X!sow?gVAyfL2dSxLNVKULxBD0oo`GECk
z2YCivy8X0g+h=l1gFQ{464C+Z^Q7Kh-TI3p&zt<bT&`dF7`zdkV1g1?FN-y<L=7XQ
z-y<0~aYTny-{Q=CM2J!2Fmn+x!NmC;3%Gp1anVuB;U>eLg<W3fZcVG<Y_3FfIQ03*
z+P~MuiNAi9wX@Po>W%0S4F5FJUD(5O+O?1=$&ft|M|6&KCQ{^5XXmKv3PkJZ+X?O5
zfy)QH|GM~{?1O*kz5bK(g9IKLU3r6$4w$n9SK;I7*Z0Hao<%7Tj7n+7BRWf;t5z0z
zwNK}@(%6|K;5FzYIs)FBZjwt=@pE?-OV#fDabtpXz;h?|>l4zNU8;?bvV0?jAyH8{
zbGV$rby_6)V06;?R^HU|wd!N(H`<FK9q@iI^0{#TuC4Mfe$|91Hp>L9K}ZMeyUaTh
z)7e<V^-Fb9hUI+vq?M2kct1$g*rfmO=jp>JHmP8(CTG=1NC*6WotE>_SJGiJCuT2@
z_<!uw_?Zjofc2C+MCmpN{e3k%>HdE>yVGze+yC+7gwjGIvS$w=COcUxONs`SwGu*v
z5m_rsDrK8wD|?7annY2Aq)2J(A`;3H8C#*^|NTEW-N$kLo?OT0es({39iQ`kUfW!Q
zYL=3!?}y=ZI5F>SCT9)9(=V`EqWdxpr-R-1@=2OT?4#ilbYITK>0pn;SI29MKc8M_
zb6f0Z^mjgf88@5`_B{0{DYMt`^7<YAV_43?<XoCG(DC>FE0ykQDT)5R)~Ex%^8!0h
zgsc9oRIQi0kW&bBqNTPMxHXd%OWxiTu(!~7<OXzt-<0<atm$n<jx^ADW$vnP{MAC!
zx9_Sr^Zm_(qbKn7!S4H-19QhTuK741hYEBY-m+P>>}r)pP9V_n<4yL^zGys;96g|O
zkg26Z#KwmkIjlhELA7$%2F?fnkV88T>-@qjbh_vL%WKF<1v*Ez^4RY`>e>8`aNrdo
z*q_4zr-MB&n)0r;QcO<#y&D;Fw#nN?SOn<!r&r8;h^YR&i*wqmHHzDE;26F>*m+t@
zImXYaO306FOTKSjW1W$W)4_gUFebN6MJJ`h;@Rft;Bn4`-=jDk?0al`{~YaQ_hjds
zB4Kv=|NhJpbX`tfe<cSeh1+(Si1d>pHV)xk7j~X@+2!{?0|PD7r6se4Sho77;#?Q@
ze$n`QR@$;^%bp4=Ma3z{*NJX89qj$xVES@ivJ(HXf5$}*8klkV8UvjxqDL8j6B?|)
z1wUYke3{E5jnly%KVn4;54RZZin6x6GE|cpr!r~}I}RDE_O3HA+nBT|@ao>w4w0oo
zpc5<>-%P*%O&K|EKu7EJO@jwK&oq%E4Ro?*DjgOxO=OWXY6t666(e?<(|<+{IfX!{
zy)&QAl;@)BM4Oqb8{fOt4X1;>f8E}z*qa$tWi9+8op+0Sw-XVkgMF@hI;fy|c4%8|
z)8ypj!!LRMtT-L)_YO5SSDaH9W`j4>nzZ^Gv}7#U!a6IziF?bR7wfS$z~so%9?eJP
zI34WyepcbuQC-I9$LFM`3b}XGypO`^V9&2j2X|}Ocb+4Ug*EzGB`;+g104$wrmXul
zw!SeZ|D0SS)}Y0T)4{GQ&x^Al#`m`SJq1rLS$e2aw+*Z_ha|K7T9f(Zui1s{5yPpx
zsX)h_m-7nSaDN$}YC^B*1CHC)K!;8EV%Dae^}h^#bo$jJ)hu~&I@rJ8>pAL1s@`Uw
z`Gs=K{bbmr4qgZQebWZrf5w3l_K}nJ^3sbrKUNrU&VxOEu3t&tcbIB*p}Fr}A%C>m
zry6T~`-MH<TR-gf^zvJ>aoM}M%9Vj7Bns#Z?9I3v^xC4sqF(b4mt@@x38#a-Zb+D|
z5jpu)=DFCN>U9-=`i@ECbg+H4a#=Q<mTfQj!nvQmBk_0Ms1>Y_N3F6C-|?+{d|g&g
zOl)`hQgJ%i^J`~`3h#C~O9#gH_Mi6~?DPx6>0sB@+{7rB+1r;<=Gw&U=efp252u6e
z>|>x1ll%9}I`R3Bv5p>cX}mZc>^y4PN~7Lyrp{~&EZjD*Q#GsmD89~EXH)2pd%P>7
z(N_Oz7lps|&Zh#Mf@i~2w>!PH$gu`GF^b9Ey9@X=k;4mg9wqa*lUjzhr9b^Ee(%GC
zME4O`A920$<NgaRA8UTpkS*D7yi5f;wgP9o6Sl-^BgY!(q{kWY$ITw<(Tu-&$vIP$
zix=pyoq2V=+w*qWzd8Yt-+?D4x(~zpL>YXQe4!D_)|gZ8nOoj}BNgaq?3YmzHBFmH
zzVN3qC`iWI8mA+Qc^@Sv)tKjO{AP(@v$>^7e^><Cr@Z&PU~w~dmW#fBsQ#CrTxcJu
zA-T^S9=ByUUJx`S_!en+`(W=E4JvbAo;RD8vnq>@OsM@SbHLdL>kznC{;qB0r=#aX
zX`BxBx<SluBfjWf`x{-yMlE5-k2KkqJ4w2FQaC0&+)1~ns}QGyy{`Vy%@6FY-uqDb
z9rs-e$_t(_oDTN$>Dg~@o++CD9$xFg7FMS%*%XM=!9H)ab=_V1J@oZiL*J`QEa&sX
z9B?|=&!>byJKwCTy7gAO3-=6AZp7)~bg=h9=1V^$w;bD;mU}j$?ZH>R76Q<5^Efx6
zmMrmMwy141iI;V5zyjaCW9R9TF&3!~cydj#kYM9ay19{x)4_KBmT~y{ifJUviCdmw
ze}{dZr{Z+5=f!lq{hH%7YC_0y06N@zv?{CZsUpac209n@T+(#zT739@Ze^>gjQk0@
zIlj)=^K?FQWxm$^gE(@iKu1Z=)4R0aXg_kuI2~+fo!NtGU&YQCIqi5<`fW)+P#vd(
zU6*3=e%9fSLQRgJ4`v(?ih8<0!q*4;Iah*X*lq7eYJz3?q9*IR5zkSa4)%C{AiP_V
z!BAQa^(n{cVAplIf=zVOpbK|nUUpoBy#R9{P6yjrpizG7cE^sl8QUuMOc93;>EU#+
z>k2Sm+P3A;B}>or>WJoo10DpN&i`3g{MT&Dq<dp$9xi{`!FOhbb_m~oVdp8)A`v~G
z53NVXPc}{mJ5QXsX1&cxGaIg`y0NXUmkvANbg<W-7@w{ZV~vgm*}<_`PAR9i#yB19
zeyIs9Ymk{5{-NWUfYZUQ%hAXG4tH@90UggYGkl$~PKx}7Q*G+|CZ;Eg#NPjsKSKdJ
zx+xj{rR+kp+rOVGpx-|gK*H%@`^bmp*aUwp&R))zd+WVSyTJ=|evKr2UdP6=4}Fg|
zU<&J_W+y&>{?8RUa<YNWF{W#8OSyNEk>db#(lgx?JsbnlkRt+g<XLUif9EdvA!pzq
ztk3!^{>|g`vN9_gDPM?%WhNWwtXw&FF<$xV*#fRimciu2Qw}&C?D3ObF4(!K%O8z?
zUP~J2==z-rwy@wX+u0#iZ>oB15B&hXKG?rk*{2Y~T3sFQ!P{97zsV-<8{T=a_b<nY
z#lrsZpC!BZ&{K|`&pgPBb6wc;eY;-H7~jo9Wf5&n84};vWx8>$3+s$-?0s~d|7~@i
zdc8-J^Q|qZI34WoO@zg$<u82R)v6u7zRG_xfWHu@gMEK^F8|5qNZs|$F2C3=1x``p
z@H*K0PR)q))bVY#gL~IM33s1RFb%{x54O*r*Ym>XAHLrl%B!uwe))!*I?&lRFjKPc
zUTH*Rz-3XMgP#5iCisp+?7BSOYb!hLKV`VqiS7J}Z#5MSI34V|5{eyJr!9V%+}=X`
z+Io$*HVWumaCyM~Z$rrP^PRUBtnTQu8sl`Z=eyP(nSP@i%#utW5-q=)o<2(eI`15R
zI4o#HU2=<#whojDz1F=SUuW!jDix$K78@}BxFp1p;YR8Yj|Q9$_Vek0&yL{A+w9vS
zOioUg`vsh@!RcW4-7EOEimk`9lFc^lll<~td=#7xcHaf2)~6jZ*DkX-cE<b4Ae$Zu
z=m-_PYAadjzIuLV+A$@=kGce)bBH~>tbSub;v>4~)on*;pJ>MT_6xhN(2enoJ9hmY
zobJ>T$u%+wq5vK9+eVXpTR7v)dc3$DV<|%<pi`i`@%+hR8c%M_#dpS^CifA5&i$+F
z{=C}f^;~doaJELy!hM<%tWP-S%=4E@mI8v;fBv>}UGs?obeeL%C~VYyeCutsZ`}`-
zH6A3K4)%EV{%yxMYvOY8?60p>li%~{A~+rFz7K3YEq~!SKVP9hhO*k3z_kO0`1)Yy
zk$?SbW=~77r_rs{T#_4IiHg&~&NJR-qEW^7Pt#0S`B#hSXd)Tt7?!ViSzP#H&!yFD
z-!5G6jtF!lC1}Bao^&*v)bd-~!p3PuH^A2iyRLU7r!Eukbqm^(5?*X&8dad;bg<WX
z+sDO!o#L*$MjS5lnq|IQ9*EPy&f|6G;!t9xlS(RCi?&Plo{~DyxwFvjV!bB4)BNc}
z(Z0lX%Y}XT`e5H@>V}Ga+8xN_+c7h{CuXgXJPqiaOJwFba3*!;r>|E?%(-OgLYxk^
zPt&J!0j<-_??%R4p5*!PpK`<LVE2o8tI(_2jw7{cEtwf%`3gIUI34Uf{n@EDt`wCw
zU3r}m3P(!R>3i{Y#?B+a7%%=)K4+X9#@;8&8~Lalr-R)uYo@A)eLJ*fu0Kd?3C|D>
zr{Hw3>*Del=_w06-#q>G(D{k@T0Ig@2m5omaV?cWkB%IgJ(gBmTgO+*nvK)J_KDum
zboF#dh7}X(ouYscmy#P!2m7AH(RMi}JuBQ~qZMn$rwYeIc-Mt}A1=82d|a-7#Fsn$
z58hK<^_GY@=fQryP-o(nzcHu%a3cJ`b=%Ni!+JO!Y#)UsU%##*2ZNmxwN<)joYh!?
zPMSwbg_qWvmw%rc57ymFF{JImcRXY7JN}}*VVW&c7Us%6P3xGy=w#z`u*b9X@Rx;L
zcJTt&$?qS%R4jc0aXQ#}l0s{)21K3B_t^TjWmIA8qcPCQi8ja<9~mR2<O}+|lz3Ig
zi_^iLUsjpQrzZCrN-HQO74OcO=k3<V*BRUAU$u{yef2?kUb51Kk`_%7DozL6$L6fM
zscStG^T3(7NXHI}Mi@>9`|m*g7M)F#PU#mxzi)+i9_;b#owrBMox!U8W4G`b`TXZ6
z0&&iRbuuF(uEa8x+|yVQN{-D69MJ<hyKmi9{m@(V(~c{!G)*b*7b{K&+nG*w(7f#Z
zp*(Y|`N{}?QhK)@zJ13YKLH63ISB`!x7F7s&9oSQ<x9osVBbreid(8>dnp{XMcT;J
ziE*k4uY>KZC;I7MvR176t#Z~)PmY<7IN+QIyDn+r?CU@I*N>FZTs1ZAdn`n7I@sS&
zp+0!FjgscD+h>2jg!=kcUv-=gc3ovh=Z43s_{~o){+WsUWnIdE)4{Im4!@U#oBF6(
z$moUC^Map7YII@y&S5wA{bRLS&O?<BhyAV}(!+p`n_8$|Kd10Ul_4LWQ@{1edN>{I
z-*fO!``K{Z+9i$lbE+nCY=^!vP6ykk(mB3eTjQF+^aZO_J$t4iR-6v@@5xM@Z`@xX
z7BakXX|r9b{)aWGI34Ufz3aKpT{|EycW)#A-hFG*C9Hvt*7E~L?yOa;lS_^dStFjo
z!wYmaxxIBc_9=w9tCY*-ZbBMgw+_DJ2YbJGC@@hYZaV&vRf(rQiorF3iqpaN399FN
zoH^W)ZZ4J6^}bd&oQ%`KK1Y4z%yuPbwJD_Ky)LzzuKP{G>0sxvWr^S^NzQP7p#Ee)
z|HpfM0?-+MDyPKr_D?~SK)oveWONKo8((MaJkyi>+2_rD_l<v!FRqp(a!`Pdt;JVG
z+byATtSrViWgdR!BLST>Z6brIu&Xz62tcQJpg^9uL)j{0@XjZ>!a8}H7OYQd?VWEy
zf_b}<LjgLQD_;HGwq->YIV7ml+@bvG*YOnO5P(jSeyYx&WhFD@(00T6NNipZkBVmA
zfE)_Y;g_O*O;Ap?@F=|1peB9m8VTqaNt+dN*_-(whX8a6YE=((-ek@|4owr*r~5_S
zW5%R6UC5yTok7O9yYFq~XOTk!I@hz98^_H<n2|#OI(C#IhZ{B$PROBY!1_2kC^^U#
zX<tMR1?ULo>b<_KbTS7yB%sqba_d`8PoEHS2tenez-9pj);l+mLsN(K`FSt5{nuaN
zNaRp}PHRuXzNtbcZRC)EPXB1-@XwbwosmNTIv1rWKg4YrtB^xegY`Le+_y?|e8Lks
z6rfWfQTnN~i*Ak_63}T8=hNhf%{Yi00?^sjFY$9|>Ck87&{Sc4?tDKmZWEDo3po^^
zGci8R<Z&?lFLFpg=TGii+3>k#E94M>&gp<;0&A505OQcLus#WA&Q-m5S>}oy3eeGg
z!Nr(!kRi+5|HunkTy`W0=rG5<&y!K%HbM>o=)7e#3O-GX2}BM}8P>;s_Z#vg!9xr=
z6rdxZWOgXz@!hM)ApxC0J@twj?+-1=Apo7Z$<ynG74#1vho%JUb8TJIo9T&+4&+dP
z&b|~~c7FO&0dhz{r|wf<;L>NR8*&IhhuJ)cZ-m;SgB+S7tk2wgVZ*2Qb$%d+0(5rv
zy7zIW^ztEx1au~}JTl#amBo=m06Jj{h6|NlRmI4m?Sl2Wm>Dq_ohxgP9175>f8D}%
z`a`82a!5dD&4ueh!6J=EkV61EPGSAN`k(nPAcsbT^$9vJ9ub**_cwAVK!^Y0Y+0&Y
z>*{ex0y_O6dWWl$-#MXq2tdd1SGRITC6gC&XbP}CUn87bk5lqKAcq2UEW?@K58mb5
zfE*Ig(eSbo{$l$e2RQ_w^J$UvAS>MPHgah4us)Z6nXFCzb}Ae>6re+WL&(joxnzJG
z63{tXdX^<1-FXN(1fV19<a;mdX@nzkXggtj*lU#4RL<y}K@J7zD0PYL{bu8zf*cai
z$zFU}D*1`|zxx-^$*5@mYVq255Y0oAgY_w$Fxb1SpA>)`3eX7-mY>lpzAJ?s63|iU
zZxR@!MR+5J0CWr)4u~0YU#LJ1O%~QiCGY}U|Kdm{awtGY|CZVJcKcgLkwXGH3T{Qi
zgfodO$RPlo@TpJDw6sJI<j`bbedrvVx&DOjtIr!0pd<hHtn;F{Lo}L)1azd#c|YgQ
z9J-4f0?@g|#by3bF+m$Sv>mWM-Cg@gLtPxJpLZxgN8mX9Y+!BHUNjF0=+p{k@)Zt<
zy+RHF=-im2etqXNmw_CbG_22omEMr<d>>8ZP=L;LuN;r`p3v*aApxBZaUEgJFSW7A
zApo81i-$X9cBei?4owQyhqxf?cgmt|^}b92It%jKdzXzhSMSRtpmWY$Wpry~-XpXw
z0?-k2zN21hRKFWJG)Y(=5i!rUFM8+yJHLR=;RS^>#-hz7XdV*Kd4AQ-hc2>v0yzYr
zvx94A%}$xD7s#P)hxO5q^a)9vJC=tW3eZU`deApUFquOR3Fy?VU4C;@eR2#r1fcWL
z&2?kq;2vq@&?I1ex@}u7MSm=wL=FY$C}e3LRWTELfE*IgkvY+#o*AXmjT{2d(Ibdk
zSx3K9LJmzF*2hAd=g8F%gVpnb0(1;Hc@N!VSYSf)kbq9KX^nv2holAM5P;5O$y(!E
zH)8i7hb9K=Bb9fWy}R=4cH~fi&YstsYWMvp<UtMz=&&T}C7y}mutW|4=zP((8~pI{
z_gm!9L}7h4ZFX~x_{($-ITWB%m*5`zY16}J$RPopUQ@w`yP_n_kwXAFMJaTyjRxH8
z$f1eA`Y8Kx2I&9WSB)GB&{51h_}V#3Ul}<hprdfD_RU8-Ne<)?fX;7M|9Y?9W7)`|
z3B&pn?AmfzH220hawtG&oHL+Pn0c)ga!5d@@j|pdk5J8jeSnU)g|ghyv3OxL4^0Tx
z$7288?$M8Ip2(p99h1XWzJIU&y@nhT(5X)KZn$>bMGH9upi}61=)&mz+*`<@ZG-g*
zJp0@8vx7=AawtG&;HUGu&T7+A<dA^Qi1^7<kFUq=m{qU7yi4kI4gsfw{dvgvb$Oo#
zS!#YFr&|zTAFQ+C_S_~*v0JIg$p$(yUwcw`9KTB;#|`M{$uQ5}<_cp&4iV@WSsOK8
z?qD}Z&Vm4}&)^A`wn32xmylBfbS5V!c>NCdeL_wY&=LHQy7H=P!5=v!p!1;O2)|>U
z*AQ}efzGYFEqu3+IKD#806(m=t+RSg#V&<s$SDLm&Mqw^`B_i@#5)FKcZFOQ$T%JB
z&kfcJpH-23*&%}*BG6edI<J&qJ@8gpYLiCJ^&@t4K74(!^Td~~6P5lkD~=p0(79;t
zFp~dK^b2yxKxdb94j=!_y?o>lfllim%j2}RGc(Ac^TPUk{!u#K@%@|ta;QMZTcxtB
zF)%X`Ib@)-{5`{AX}_%>a)>}DS}#F%&ri$U$f5JV`gH&3^)%(0%tH<p=o}nM`p3nn
zCxRR@&=G#0oAU4%qY-k5Ku2!xjP027MkVCXxnX^ZcC43Fs@!Rg94gSs<B#tQ8JakU
z95T?cuUg|5r8RUBIYgjSW@o^+cKfCQ<j}Xm`pBD#^|M(#IgK1D&=F7Ko?1V{cNsZk
zpkt?+yO?Rbe+)T9ptFImDC**;c5dX*xnO-}^G_98sI{#_4i)IA{yBNmN$o2Ga>zjE
zGiyovi$Upj<Pd?*iiU-#ag^X$<j^@`eb`QEecNrMTZJ4d&?z0^Z&TKj`mYbrp}Y;5
zR=%l_faW0rox!&}ng`ZD>qHKH3#`xcOXDKbzuGn<hYECV=-mIfcvP|sIb@(C&U4|y
z{*8{g$RPq9*Qxzh>T8(XkVEHy^-(VP(rLleWr!Rq(D_hZ`FE;?@xS8-=%^fSld^L>
zDvahK0-fOpBSIzZPc|TjPJs1!Z~wZIX_wP|<WPYQCxzwMNY$JFo_~POqFWow^|AS6
zG!GHzuw37p6v8bMiX8f8SRXU)ACY<&GBl7w1v-~99KyntUPK^=40NQgQx;MTINl?N
z2y}|3oJ-up&BKvHXNUF4QN6%@WR2(QJXD}_e^1yBxrqI%=Q|nb7^tVc3w1n{g4RU@
zIuqe-@=H}emyknegY{Xqu<hJXWRQa#D$se)Y0hBEthIXGAOoE*&reQPo+3R&^ALd!
zSufjHsmyK!IrL4iK9*w}gI)~g9Y78h=p2@M#!ppeQ$!9K=qOF;ac5UOi$)F+=rHOR
zIa-~%z=Rz7Mpz#w{Vc;d%TQ+IP=U_B9a<AFv+7o#TgX7?aYe7A0N>K;b%O|W0zWq%
z_#vrmfYwFd0PEwoCM0+M){%S2p#q(Z<Aw|-PI7mVLk2q6qI2S7PA^<X4iV_wn>AXu
z_q=a0a_H+}eX`oKJq&)nTYb)?0-dGj^MY<oF12VLGSF%8_tR0~`=*N=BGBo$X}bA;
zzs|oMIdoQ7pA<fxvtwSe-N>N=9huQT`znldm61aRI$Mvbv)Q{$ukJe$=rF!5nfUP2
zeG1J(UkB?`Z}n8#Lo0{{IaHwIcW2-C1kTfH$RPtAJ;`Uw$43tR_xT;@>}zVNS3mpl
z8=8l{7S^Zti}jW-Uq9?b4i)GG2|91MqZ1^F95T@9+9=!J856zwUW*8H_SCl$O#^u!
zpn2#lus&OM5hmsRN9B-11v<vYFE+WnTr@@w8R!gro;ze-;r-wB2k7V>I$3Y5f5{)s
zLuZEdiJWofGgQ0t2su=sqo5RVR{EFF>iJFvI{CBbPS0QHTYV2n1UiJF6P|WLg!O1$
zbS79I?P3<mtwvWXkwXPKVr&;J+OI5DAcqWec7F3WwqKvrj~pV<iIz%dke+3Hg&g`C
zSRd|KBD>g`R~E>j0-aC%p|+fy7PpW?209;t!dr*7X{<g+5rNLF6b@yU1D}7QdFYI=
zKGAQ-IfZY|sUU|6bo6bS)aQ$ajv$8&bTS#;B1E5mTm8I41UflQl-$?Z_cGBubOu--
zop(}c&lR*~kV6GJ`^v1QUKqEpUdPBlN9>oM#H+`bRzL3$fsTY-%>k|6y{p%G`pVyx
z|NkH6pLzN}|BL<p^pIJ{b9Mud^Q(P;&bF=}d)1Z-)saI6I_d9sUs9KGJ&GJ6(5WJ+
zJ+QW{SbdJ7FT?tjdYXGYP~6Xk=Ai<eK&|3uBR9Q0kV6JKew!*g=_k)RBZmldVl}@=
z<ZomRL=OEQtj~>s*BjF`UREQA3Uof@9e>Wh-^d9$WT0al`$X}<Sm$2k5P^;lqfpY3
zo+%OJ(Eq~vY?D2Z{`6hJ3FJ_L&TDJ7#iGRxyvQK~9qoqOucVEht=><GK<9(~OW*g|
z0;}%<=zm~+eA148R;#Hxh}J~~I$w`emW#`at-co}10Bu#3u2Bg9wulWBGB3JuFkIC
zZ_VoaUiuQOkDHr6n;|(u3(Z3XIwCR_+_ytrKO%<=bd<f?O&D}8ZbA+b=xodu_c8wV
z<P37?i?BXiPw#1Lzwb#x4i)GOe|Z{jBd7ixIb@)7+HLe9Pp<Fkc}fI2&m7-9KK4((
z3(Z4cfc05B813k=*nAT?RG_13o~~X_z8!@eGSIosb(~^p%(nVDg$Q(b9o6kO$eOR-
zFX+EveZ-@#oqxC^Dg>>I3UrFH1TQX+y3`|w40LjuHoIw_N?pD05P=RwS&l4emd=jm
zq5p#QkyUzrTQvE;8FHvVN932}FMFw^)#ouX&{_LU-{OV&axj{Q2y`xew@Uh$!}Q<v
zXCBt)hOVcLyWKT@G!GT%{A?UHP5x~ljvO-3p|x&^q5OSXiX0-)DQNPT*&fiddOxMl
z!TLNAm^}M&|HA6?1{LUh4RTq~-5=F~)<p(7zr=$Fg@&0OkwXMJH@FV__T=!a{#+$}
z7S`wPsFTKVMHf1nhYECt#(C@L5_5jYAp@OO%Mxw9*s%iS5P^<m)VI>?mtMD#L!W{5
zNq%!#*hzRW9ywH?<2lRE@aJI1737eC&R12JnD+Mc)%yhz=y)xhe3Qf!vHF}qpN93Z
zyCVNIn)*Z^t&0kDHjEyUZxm-<Mh+S1lq-m;yR5x%2{}ZdQ=R%GKY>2K`h6Uo4(oHT
zB5(57nx577kW`>k|Krj1E4LiI(7MP#$2s}@=1A5tU*r&h4);A8$6({Y59H9NV10}x
z|EB*tH~$+sRG>q=$oI%&t=9^2$UrA_TEE0o(rxwUA&EdI^~L-<<J&!gXde1cSf5QN
zta;48JDf%i73dte9J!6RxY-UlWS}GZzh9&mK6vfF`xnp|-fc?oR=&xD=Alo*`luNi
zhyDCBy?Q;Q0-gNDlN$4NXKT<rWT2z_e#D{I>)H%*h(M<_;I7%tw9Tu}ne+)*pCx%c
zp<n5P&1fDf&?$d3yLVgVp8u{tK<DZ9rcAcoFIT_UBLbbqV&iv(n?9dK>!SaF^_lP6
z%@P(ju=>7^3UsW=1&v)L|5ksGgA8;sq@GXRagN)A)<pz5C5MH}Z)j$WB8NT>>%-Q~
zwLgR=X^k8z&>=6Y-JzCetUf1@fsWCsO4HVT0;@llLIgVG<Ww^`eYR_8UGy<n9~tYj
z8=6>U4Ut0yItjg}y^U=z{dax=9Tn%giC^q9|9w9QbQppRjypu#FrjtPM`3+}{F|<v
z|8X%5IaHvdEuAZ|D{$_=;|J)79V))uI${0a`yZgAmk~{w8`NEW??)ej^<fw=2pCfS
z{B*Ss&=KC`>&GZ`XZ5`?8R%44>+1jDRak@OAp)H<qcc$+MjR8!p?`<<@!9&2_fwdW
zDsremhmkR$;*nO6DRRg_r}_Zjsa88BN#qcLPF)c1wA{EFA9Cp5V0~_X&npiMwNp^%
zc&lkrs<D>}bSUA^ZtuI`dk8sXpd&XwbLE&qo+)yOK<Crpyr|J<eB;QW55xK_wY0c~
z@!jP^4i)HRvblsVd-i)FhYWSj{e1jzJBf-MBG3`t^5y8UX02u9(1&1s3^JBu`Utz~
zkwXPKqnX)u`WNz79Wu}fmHFR~IH+#uL-P=UPNUAfkM*WIE0IGVg!Q@G*W#twuk{r<
zRG^czl_$5(N0tFOWT3M_sl9c*spzUh1UiQ~GQ(BPRTa@Z^slf!d#*h#yOF?bjT|b_
zIbbK-e`&LrKXS-G=U82TR&L6Jf5;&Mo%f1t6|ojy;*moifc0TgIZTsDjJH4z73e&(
zQ{_?fsn9|W8R%$6C+@!z;3L=huC%7ZSKovPbU0ROuO=^&A0mhT1=we)(4=_Qd>%Pe
zpwn<Nt$6t3zSViiK<DC$2)B6Gw?Q-y5$G%)cHbPqpRzg+y&u-+3h&J=1s)<SXdWui
z*)KLt?`aX*iySi0X>1eP5&0@o2028a<6=kZZh5cWg&cYxtj}kU`AbLYhhvdL1v<)-
zt#356r96>C20Ch0e-*?sn_Sm=x;Or=`PxbZIx1<U4ZN2xZAA|KGptX9i%t8N_`ypT
z#cr?=M&p&KI34W2%W0l}kh_cYovkG8k7+~Dk%%yy4)*8$QaWyGkO{typ*I`!yZxOe
z^?*)qd%%lfhp=yi?p?i!tTL$#K!>GL-0b)X=0ZN9$I~Bd-aFLv!a6spdB+LtbLR~X
z?wHEqD&PtOI#+)Uk!Ku=B&8q9SQiRz$kYQmanH-XFA@dh-buU9pZd2UoB^kU{X0|%
z<;stotm3s<)rIz(?o`rh=z;a&Q+WOQ=3%L_J%!@dW`o0VQ8*p!Jeyc0zG*%Wk379e
z*E%hj^nrxa!5)W0N`YF6ksW@z<&r6zJ9cvra5~s|^b(zT*(WbP9%*0^=N^1A+5HLD
zr$W|I#7%hT<%yLmHmBC;v!?=`f7Cs9AHUp`pY`#i^{Go*gVsPNqHoQclFPI@7X4{;
zO1rKQFHQ%0-Jo^RTv=Slf`1h@r2AS|B#d^$`o!37C#ely&`hAds|tD^CSM42j!+y&
zPgKkv7d*W9&+(u7Z8xA(q1|0Q8F}Yz_P;R-WBTp@X`BxB-}k)zBJ-=S|L>_VLS|=+
z%)t>>oDQ~gv2^(^wYsKD?U$}klWo5kc6Z_HjCGthc7Ei#Q}>DAugLqS;nuT-I34Wy
z^}0dp>|BnQ0dm}cPLsqIM($HAn>8z^_9v<YZ<ogDVAs`^burB<vBN!by6+|>b<TF7
z6JH<fzelh7NGfJ1n<sq8XF$V&`bm}*=RAU#pM?M7nsYh*N6_7_xSqSFL-V28I2|#J
zGd0JW_;ZRpmm#7Pwd)V#XXx>~ORn(X+TrejmFcyye-r(~pvQAVrfH#13Gpv_-oSf2
zV~?L;8`}aS_8i`&n?LDH2d+;x;Os-d^l@)E>K{7gY0quOyJ*U)>&}4l{KC$&{aIP;
zdv25UAG!4uTk<w^)&S?RG9S2?dU#vJ#a7My9W!m73pgF@JSl7s-Y3^T*tB!S)T7$z
z?o2t*5zV<Re8>6d#vMQZlsdO<_!9_pWH_&_Wbrx(b4}&B?Ud1)PzO4m5`PzDnd92K
z2k0tKMQ)nmJx{TH5_K%cGfEGV#oKh_FRpuOQ;zd|$2$I^`wvBreAsr!uj1{cF1Oi0
zpd)Babl)~0eE7sb#I)m*Jyjj2gZ=lZ#rb(Yh(<aa_Z@j`bW66HkATy`u8Ve<xn#%J
zw1Yj`<ogx}@-NUj@LdnF4u7W2jR>BHLN~TiU$tIyvZMf=X2b2f<|nVD7-sx6*<*0t
zhy--LcWTaPdiST97iuXATz~MB0CajZG*Y5EqMkb(GCFQWZ}y<I!}_Q=20YfXDvNPC
z{P@-l327<?=t%##C1tcIuyj_abX^yrwU-2RvdAj80|YwOtXUbI?~IjECjgzDEeVS=
zdGAkb{ATBw&Jh+$YlHP6#N|B|IrV1nfnIcKfR@Eh3eZW)_;N^VKkL6)N4o1bD-#hC
z(1{Whke15&6KD76on?@)A}aytcr1#xomCt%9u(>GaCXhJrnSQQM0cdnPl<)!?U${#
zjhxiar2w5EtN7w`^%pAy^LjLs^SlE{Kqu~~0uOtf!=F0kz#R=0KW`F%&H)>LTcfhf
z%u7Y@hYp#Z*h6c9_0bHbcMiTTHB>5=`4?)gF+u@4;VavI8-1DRA9j8Eqh!neW)jeG
z-+GFrAWNC?a0oG-=4Wx70CYs`o-q92+unRP_1;_!hr~J>4b~@>-g2q><<xBkdS_^A
zkK{`V(Al-uEaaHaj%rEk3H$k9`fMbiQ)9BBs*q#$&&eG7^zMwWA_SZc_Ichcdfh!;
zSF_`)22~X9vt1DbA7Opg&n|7-+|-?$o0|JFXOg)&8|cW(3C1&Xw(Z}r<3RKN-n?K3
zoDK)(c{O{iPE)(NxiU=iMCwCFm0G;>VBbqT?I^S~J%7aaWYPVga`wvwZaC+`em))K
zOx?tNAk0wXc`--#v8(5eaXQ#}G?!y1FUWX`)L-qLmJ(}QCIFqa%`fKfKWb-Kp?R#=
zs-1k_-HdPFvBytW{A>DBgsQO6ZU?@^_@5qyK*!tMi&s&9iTTKht)rEnqM`zEI@ssB
zV_H93Ms$xd2Co<7EI9i<hJ@3>uB&!H&c5zhkn+vnzvhMnonMLIbg<8LA8*C^%VwH6
zv0TaT{h)lVYTyID&e(kqt=8#nr~8Gxx8IZzaEkoA5T}Ff(`g>M|Aalc?3}Z4I3Ypz
zN*GQDJJ0&~Gu5>_cSqjbePEw)ip>XOoDR0niSIkol<qTS=89Z9f2QSWGb>I9yI<eE
z8sB7QY_Q{P&HvQRwNlvq9$#myQ}$)}&gaqB?Fw13pP!A}Tq?xrVAm!3I-)L^eyU!<
zhi7`{HtVNuI34W!jlAyud;1061)}%-3^@B>=b6d%3oxhsODwh|hS{9={#Ju?9;~xY
zIR9riJy&GqANQaT$9cIhpp##@`809(PxzFbNa2MZXSyCv2YWnsWv;)pd&hc#(VQJi
zzi(I+@Zxl^`_7>gTQ2&t&99%l>#)zu-=U*T_>LcJpL`B3)$N_V?w_xkYHhD7G%5r-
zp_5OQ*<u7gmv;!eo9ZxsasxWgziX!FTQ-$xel;Ue*0aBn20BlORQ6Cg$yZT-8YL{e
z)B8u?!TMaMdk2j?v*9^&Yxc{JBpS64=$yI1k^R4)ZTKAZoSXGW%5^a}pyRERt{xEB
z#c{po=0?u(S3}Y`9qe(ayhLF>ytH3IzC(}nlfB=L0jGmK4w>HF?iyY$G4Y?xb#hx;
z{!DAc*BN_#b{{GX<9unBgTDVt#pz&==Tx$+>dpSs%c4)(*Rra$%vj@ewqc&fi2HrK
zUu@!?mB<-&f6U-svVhaU&hzM+;FgU8PFu=v<Vbd(Zxk*EI=Qd&X2)a{U$biTU%0WU
zLpc!W$oNJ%O$?1O1s7-AE=T{hRLALH_v_Exxi?x}Jmy`cTrPJL()bu~I@sfI)3dAN
zufj*gkkj3O@A$zwkH-|Z$VbL%5g!VOn{hQTQ*k=jb$wjma}13+P-Vb2F_F8t{%{~p
z2fOdOe+PM%^*rxO8K<Y+o8OtK4s<-aue3X*PMIQS;Vr&C*m*=vTxdFdnoP(k2Rbb|
z55F+|z1)SIK%kQ#w0ryd5cP-ik)rcbhj!Mf1D!4ow&L$>J0Bot;SH>ho#Gk&<EqlK
z$SDUpgK;<Sn{rzvAtw;%R3@-a9$3fiiyU>JqZ*|iM|*sJb)JQKSf5{u%V{23#S>_r
za-bt8s>IAqJGL7+fk21DT7OR`!D<LO>Of~e$h_&3{MB#BS$GZW)2*Uz6F_qNjhu3z
zvw2xb>Sah#5pn{7&iKw<d$KNTS0YCp=<K^%RLzlIzdFxC9jwpko`vpvC$`w3dCGwf
z(fbkm^~Dnl$O!~GVRa&nZCfbL$WaG6OMOwky^P(3$XR#=>oY6B?w9`K*D>Uj10BM^
z@uNxkAuo{=2z09W_i_w}jV&QZ9q2H&_P)9wt!;>$g<4pj`<LX!b&^K(ky8$Is`d&A
z^jKUmKu#dgaZ?&SW`68J8*<cvPPG2y^{;W_tIk3Vtk2h9(;m;Bu*#r$%7G5AK9?6E
zx^)UUfj~!TUF1X$b?Xh}r~{p&?1w7$KG>XtoP}ywpWlNF86=xof8>+{o$(o~UH%r@
z>yQ%&bUYc4m<w)wA%Glppu;VqcW7*v*$3n-yoB}fxVt6#^_9G8<dg%QD{r@i?P~jb
z965nNr}$N%Q*zk0V&td;ou<FtPgZ=Mh9YO73fAYx`U6oaS2S1eJLN#9O#g*~_x3wM
zXr4fzb4=s%a+ZjG8FJKtPE>e>uD|StFUVP_g!MVwwr<PUIf<LdDF-^qrm7c=v$lRm
zP9V?;Z&s9j?O3q7@9IED_VsoH-p%LE)jccOtNeUj^TG>!eXyS^?WW=e{}}adLQW0P
zITNq2cJrI{PtoVoD4Y)V^Pse)gy*$whlG)140O(3$!|<*p7B-eK6P|>Z2LV{phF1N
z-u8oWD|etu!UeNxMaG8b_&Q_Pb<uh$DZTr5s>_FicEA6={T>B$qECjY4|&X9+1V6Z
zvR98Y(-`Os8;3I5=v+C199E#C#{6z$OLrv;avCaNeZH>?Xmc5Jm<tsnJl8Vba54&~
zgMIJUs5D_V@?6cQiZpTNj<&yvHBJY+UqTx!Ii1AbT#9H4*!)`Hc?~bniLRS>m<skW
zl!;`&d&b~mPj@-2kHb0<;}!<)Uwm;JbSv+i>rMqavF;agI5;P+8Ep}elB!y0w8rUR
zJCCm{TkzYq+}b8=cJ{o^nl@>i4z}~;jvkMyEew9|7`y8wk6&pReFp2ZJ9}$M@t+&6
zdN({*7S6nCFU09!zhC}-PP<>o!q6!|Z`kurR%&S!PG<w=J?$AIzE9cfE9nFM?AN=P
zqd!t`I@mrVTTPV)bQb=p{=9o3BdB<Z1awYWqz80ZJL|c&i1>v*yB<IQI%PLh>@7cW
zzj~fKKH|at@iy%#zWu`9cT&qr#PxRFiOUz#2%#Al$*1CUu${dE1em*{mi_8RdL9ia
zC}wBlbk<__>sdtoi4luLZaE{{>mN^1WTS98>oLywNa7KmlE+K6oUAg}#;jAI&Y>Rj
zWwy&1%?(Glu5_(kJC4`E9?#{|7H7Ar|NXUbF?glKe!AZc=eqbY>+0S3()MrRTeFuU
zpPQ$u$IIzB9qe_(C#-HZQ+M%6;elM9`rXY*H8>sYz9;T45Y*6?RBe#h+2u@`nr^`9
zVCOj<D=f5V9iM`p6Yw5~J1~9fr@k(3taN{Qn9+eUH@03a73cZ21><=9j_se^a9)fh
zEBS<2*geVsPG>8|F*tQ3VPD)HMfBXFhx7W3{r+NTAY)nQ<l4cxO;3drs((52;&e7+
z<|*3Qv#Emp@1Z-x%ujcX*vA{=bg=uy@84MVY9a0#t3#;&4Xg9{c;~@he?nX~8+-E|
z9{LraboFQ@#SL#~?D@{8%y+A^t2Ca=Ilj%Dp+FO_gZ*C5T4z^(jP0G~kl_4638p_z
zVL1D+VLH#9H+~qW%*x=A{J)<Ek(5ly#_3?!)uT&_Jo89|GR|bvJJufFhS$NKr)0Z3
z*X>^%k5aVa(9?Kb<5q}s9(K&SmfuRqMl0J}Pdy*A?b}&RqTzI~$Itg*%ljHVN)C(?
z*2Vq0YmD%&3wyutEwxn?7kG0>d`)BQX)fKsD4g@?VAkb9vgTU6*I$l)FNp|z4qtfs
z_>Z?`(mTGMxSu;SJ(}sj=hfJyPjbCiUKhGN_MlZi=TD&mov(hUUEiErx|M$Wso-1s
z`93mE2Ya3l#huWmpI_dk-mt7JeOlH{9jAkRj#|0DFKBAs<r`76qUkn6lHCH%{lYq;
zEd&KcpT11?qK^Zw&Q{l#1D%yKBg=<VV(Q-VjCgv|cYF;5IuE`Y<{EtHZ0u2tsX8*d
z{<k{Nd2D>1%YP;R_IF#V|DzZCYZq|dcd&iloz~N7zw8=2kuuWey&xo44s>LUZc`sc
zlC?(+gEn#h`kfjGbegpH@b>uE9`AM_x^@r5TdD&cPQRvVPA2^pwyg>YxiR<R7jQmr
zVEaTGH#RG6`;_oXaFiuK$DdvfbmAK=B2~;v7;nAoyXH5?bs-R^gFU}CWyJ`Lc+K8M
zp9l4DI@onRNNt_v`Kapu;Bv^sofL*}2B1UT>Es^1Q#%PcHD&ldUts5{Z0nO@Pq-zA
zoG_qsGbzw}`FTzqa`b=>IeZV}<!UK+<S+monLwqrT3QXc$f+rX^=Tbq{p22zG>n`u
zpu?2Ccx1Zp^+V+70UbF;S&cgOS_$MZ03Bbpxi3R0I(v{)^90tXGwb-6;y0_a$O!{F
zo{nZt&8!_d$k78j0l_VuwVE2d$YB6FZdO}LL*xXmA*ZGU)~7UZyErRHpdfO>fQ|rJ
zk$dpXfGl$KfX-4%!qJ3sMS0{f0G%^-Y@*D0Y?{cac?|2LRCryxB)_=`IblHO&{vlX
zySG!To%Mju94|lrO|7k6XdVWj(>JlQ-Nk5p5IHqeSfA}zR0g$Y*REa<!+?&MK;v0G
zY1d#hj~>vWJ?t0uOAhIDJQe-RCj6BU1JJP#ud+D&XY4C-Y97J**v_kG6ixc%Atwyz
zc;<%CI<}ukM~)uQVQw>9b5U!^8#xR>CqvM(OQFZT135Ltus%0pMDC{AueC=`7|`J`
zzUU{MWcd#{dO)X5=al2iu-T)?VE{V4Je!W)@!#v`bv1|fO@-r3%|lq9?B!DJ-^T4Z
z$O!{FGYoljccocH<mdsN7XMjFu;{oIau|Tln`mFp@9j@#kW*6x>l15r>8`FZ;|g-Z
zfX)`}ojxZsOt&CM59k;O8}1zDR}4oE1JLO;s^9VGrluisY97G)kYq0P1^IfNKu#FY
z89nQDAYF#2f*d`d)9dfx;xru^i5v!?GbLzBGPAj8ft;HAus#)2-(Dn!IL#p^4Cs&p
z_}oow>K2fr2Xt~i)K!+;uW3XM1JFqgXW5@(+vdE)!%m<WXe-y;gZ1f-(8~9@_uCdZ
zVL<2lql?@NgL(@W%v!(gyzD!#2Xvm7_dA@})$?BB_=SDRg<%8+pd;Kjd^>n;$<2Ym
z?c;x~N%b{_us%E!TRk@gJ+6v5VG_iua$GzN=mfTAY@jin&ot?pTI+7$R;~wh%=vDl
zb8>HVeO(b6pQ3eIlmY1QKG;(~T%n^hUp%0_#oau;rU2F_Ve8!!ok0?nk|&M`*80!n
zg#n#Q-VtI}40}FBg(VmK-pX962Xtn0rUo>4*mq|{+_}N_NQ;L7=&&3mYJ?qROSz=g
zXM3lV+*flK)+d|LabNRmBIWM<99x-Q>ftb;Q@B!6|7LtB5jlE5XU~Rrr3A6uy9tl|
zJqHNo_ZWbVz*>GyXU?@(5?zjFO{#A#sL6-*sVqJh7BPE2^n8>{kzvk-urQns_WRQ_
z?I8x%1*v0W1#YAmtDn&hI34W!DDf@6f70FvhFz0tJ4HH|`AG!m$eJv@b>2A@D^o=w
z*!MqR8_0w8*%BA<Sez8yAJFb>J$T*ba5m666U^-@zJ8r}Vf~Ci62Hq82cYwPylXM}
zu5*F&pr^#B^OIo_pkwo{{q;@rmult?uU3jaj~^e%h4p!-MD?X6So<O;8|V-oXw2+o
z7yN@92cWaz+vu~(Q}-SGKgSi3UZkdp0G<24^-kTcR`?Z_W_B|<W%vBR9ax{EK|UvM
z*YNqWUad7{F;wi!20D~o?~|T?3{YBfe@JLb;!$zH>0rN)8&Y$slei=674p%?ddx~;
z${44EJx>S9#{S++OjaEHB>9k&|Fk75P6s<rAV+G~uh_k|S1(N+%)g=AO3#6H&J@zT
z<^AzfqQSK;29@sEeN>?15wM2qJ~=R`Ux2&ai>F<O40M9dR4ivF?;wdh<f-1=bYlw<
z=$tXyUFa*U+|y(|;v5!qDvq8F>+{Xj`kO+nR>+Y{{n4)&wyIKrPKBH8hZ42rTj+aO
zGSGQk=fI+tBOrzxBG9q$;P&n4Qr(XndKRqDo38T=_PShy$e{uqBk6iZO@?W8<dA_*
zB+HW`NzD!U$RPq9<`)*M-8pJpOCz4Xdd)5~^h{Wvn1W>YWm{vNCspgXB<}FEQE@uh
z@6nu(D#=PqT+Qz9@)WxHgPa_Q)4^VU?*GsgwzzsACrtgch}!WQ1$CfPu3QtC)^y{X
zYEJK~kUAsxg$!7q<Ig`+{5i+S-z2wo<aC*SEC)J`ytWbt{}Nl8OoF|9&&0U~0-cgx
z8ES8f(Tem~(Vm0hfA**Y9UGJ4$(3hqKlAx1U89cqw1sq7AA>)w%#=if+D8qqHf}Mg
z>?+6UV2__aPre`Ce(nCB>sINTkA!(^h2eCt$Ioub2XU`eH<&WrKVc#~T_>mqbOa8>
zZEe{r_TbmG0|IItOF;}kM^gA$QDoP#-X-UwpRE#E!)nrCoj+HdyfA!vXy2Q^Cf$oo
z#H28s4z}~;l&SjQ@jA_vSAX?%L+TzG<8-i{9sOPioy@#*=UQIu)R)+g)2u*8Y|Y1u
zkE7!wPbb)0JQ!r$(Qq5qC)Vj|aAV}+=Z)^o30u;3=SBgYO3yUaHSgtoYi^47?3?~W
zHwHQhRk=qjl=CNo{WGf{-}@`U3UszmkHnqcO6Zc^6q95ByhF3$7QQ~%ecx1h^A<~y
zZ5va-KL&2+%heQ|4tC$qN{-Kee--j&uV#%Pf%)eL63}TLC=<`|HgO5j5fV*hqMjlE
z9o{WZJwndJ)Ab(fpAOM@5lu_Q*9W_<gapyV(2jRK>wb<L64aJ0r2ri+UhzR0)}LPv
zj@4<Eyb~QD;dHS3wXZcGW+5%b-0zk4lZTfwM|p8N*mcDo=pj!XaNcx`V#GVFGkv`~
z1=i<y(9?U%XJ@oOb)WXE2zMr=0v+0?*|52d1*1MsiprA`Oj@mRI@msw?}gU>>pMBs
z(fias=KQ-gA~+pv9|x!Orzcn3vm99Kwp<CI_zon)`rKxSly)-vTO1Q*w@aJ-cy>0>
zvCn!k%X=o4S3{fa)=YCRzXMJO+edQU2CK^b3MYM2bHC~DUZX6H)4}#}YTXuFthR}q
zrMmh2?u|Y?qe-wnCvRQ4JL$gNpkn_c;t|@f{z9Nr7{lhUSb48%Il5cr<wZR%H=t7%
zYrsBdO}U@P6g}0j@<LS_=y)0?h8`;Q{CmNu^0eB8H?pINus$1E?GNQ_IGtN}*Y8Wx
zUXOc)I34W1f4p$xbHiO{3FeMS8y=(L*JPXycHd201w@{!u5G+~ZGVjNU?UF^=tvA5
zIUtkFP>0?_(r?20JSeW{>puR_c*CSU^B}iW4i)I^8)2POCn*zYvD;I9B#&+-10D8z
z(NBcGHDCOfm>Uw>R`8bybk_FT&zm|7{SD%j{8>QAN~9;i`mC5XulTm#^77X<Bf9L;
zmZRcyu*Z+hy^^lY8-qihB}Pf~Cq}mh;&iabkB<qV$7k%tC#R1t$LKxf<?293SVp0m
zgIR5pil^$2*w+ST3pZeWZn`FmIvIWJ61BZ-^H{LGwjAi3Zqqnt(>~JL_a*Zvi)pQD
zAkZnf+RCL=?6O&DP<}nv$?w|gI34VM4TZZ$KVF(%*WA=~fwLlrz<|@i?pL5n%9Z{0
z#uP)w$D!^stkpFXSZBkE>q05wC(bvWmw!oe`_UN&bQ06=oET0pPiCuOxpVmU5lcOw
zLmfU}@XLF9rqq+N<bRjg;~9X?>8p45e5|;{d_~fc)BJns{hD}KpH2s{($<JeDOaD5
zZ>_0m_#6gwUYMB^gH@8qEIT_n6NW3l>EU#+$In0Sve)mlB&1R;H<L~e*q>&_>0pna
z;FW0A5k^%PiM{f&iI%&k8{%MnWHw%*9j8u&*`?OKlw0~B76o*M-dx>VG_|P6t-~m)
zV8i8NjMKsPu{^QObN3sU{rmK9HwGuxTp-|duzfZ&F)LlD7Qd{y?(RcZUgz7iSXiGm
z+c&az<eI+q`!yea*Xx-g1?c$jWE~o~ccPLl(fGOL)C4~X=p6F;k#<wP{&dSw(E!c5
zhmnBO!Tw&7h1|8JxGQbHZ)6QQ{9?aP7>I%OG4#@HXK9P#y3+o8U)V`KwQQjC%{N#w
zBfIU%?Q~U<MgnQc0qCgT?0QeBa@mx%=;txx?;|Y&bYz8EvcKG63+&zh=6!*V?XQ7o
zSf969x`&3;lGd2b==8B$w7<;;I)s;6QC-b{Q`hN4jfXFp_&eZqu;<qssiNVZU(H<}
zq}Y6at;!NDjnl!NUwiV$4vmY==v9YE8AZL8>KVNb>+@cxb4T)U?6=xO@>+Hd&Dn)O
z=XueM@|q8`=@*ZvxNd(T-s1*z(${qFid2t0_F~7%iHn9W-%I0ku$?77`d>2Ek97)n
zHmZFWQ@f3R4c15g)(y$!MY}^hjv1L7GcT!8fsPnW)hGGw!op|M_oWB#hmgrYr#?aT
zO62Zn^O;AvqnZq-r-?WnY@b7eeYWa-yU3jai7UYYsqqU@us%(pM|u=5E`GYWeBe`a
zpHWFU&~dLnCj2z1_i)_NPz|wf(M*9r=i&B1v8lzQ?NQ?kTcRv)xT*skYxxGF7>?g_
zf(55syPm#%xo{QMC&EO+Be1<-LuW<`f1<6%a5>ZobT*81U=r9?#>z=uL#qe`I)z&E
zYc|JLa#~Y3HgtAO-BJfSP7$@%gByebi?81GcvkdXV&Mv`kIzDXo>jM6=m(S6swG@@
zGvz?1C(!XQZ+?XtZ{-J))op@)AWjE+UR;(ooEqM9j_rW8H_zpr6E=D{9qje_o_p*5
zby7PS&lN-#n}3#k!vJ)WN}G!O3<X-mwMry%?U{^fF2g!!NPfS%Z`YL8MX%6{l7X*X
z!+_2))z3K`%x#H#|2;3x4U}Kh!|7l<KU=fmiD86lFQMqszFQ{U{H!<~Z08dPI+jv9
z`xR_nEk22QlK7z^64uA|Pb1^9eM-B4^~=k7{pDj(K<7j4&kZ~k?RgDlaut;e<>SUU
z9c-WBwa+51G3|=ns;D`-XBX!(0jGoQV`I3~sIhJDwX2_a1pd_JxX~`b`ZPJJhH6#D
zRQ{S6Z#?pWGmipv?!9Brt(X^{XgyK;Y}m8Ylmv8WI(z0CCOyB095%WY8JDg~06Jmv
zZ%QIo)<=e#PmOSfk#%Vius*${_m}6M9zDK$;U?3WKfUWHI34W1yI18Hh;47mI=^--
zi8NQlV2#tk?z{A?|6$vUs`q9@9qncnawT|y&V8eOSz6<Zg8M$3BnzYl&UA;v`Utg6
z2dHeg#x@eXU`DwmZJ7#mrZzmLZE0-rQxrDZwM`(xz#6B6?W|T>uP>{wK^ms0WD7W4
zIU|D8!FEo+KCM~z^^BiQtzE}83;yc^VX!_LLevY?@UrxzNha_4)?1p{KqvXAq4%YK
z4VTG$TPK!Rc%~e1I@mt{R&ErDmEX|jF3;-SDOwyYjnl#Q$-1;}(}9;3BiyzNed!`(
z`_WKXp8?wwFN%HX>cxD_#f4uT5({xU*me2O3K7`#zA|bZooFw=yZ0~|r-NOWscp1l
z=EsHro`FtjDW#~xM4<D7?f9M2^Bec>k~=M%xpmxtei7DZPTA^KMq}iTOs;{7=;8ZE
zsX&MQgsF36d5Og<&WOhmm1)XkptDn_i~h~+iMrGK`;I)}dFzNkhr-f)qW7Lq=FCPF
zA^+2|HS`Pk`e656cyN%l&FSG&!m{9v@Si2Y<v1PezRv^)@-x{hh<ts>S(irn{525h
za1ggVt(H&{u8<p}2N}2)s{<W=cdorJE-W0nIg-uxh)>vT;XJ-R*mXUA7w+iYDkMl-
z+_r<-p*>d)bRKvnWK5Gf{VV1>Q%hAlTLW=A*!{|8ZICpkyyBir90{Hllxo()>0sCO
zzhCM1z4zrpt6ut9?eOitUo!w5<&E-(>RfyFPQ94lUG-<Mv?c`BInO|O@9UnX&5JE9
z3Qzh=n8SdM-8rgO;qsD-+Yf!-ld5W-dO+v0Kv&J<g5e!k{epif&KIUK;B>J2#oH{I
zBmY|P#3=K;>SqR8RzonXPrQ}>Xnme=1X1dOjD${1Occ<G-FY(H^Y4{c?<7^iEA3iO
z83Ud7#x&<8L3!DC|DMKh{qPHA1v*@uS6s~IH@yi@SfV}}%L{J^g7xXR{(hHS%g*CJ
z_B?EylV$x8h10?A*Aws2wWNL8pY++=c-=Pgoh0FOu;&;1$5AmMR@b4eXPKBQ=2XfE
zK<B*sdbXpwJ88<v+Qvz}Y<p>eus)6blDeZFyW<sjvXyV$j+>?c9Y?M4uoyOC($Lz)
z$hY5qKOg~}?Li-&yh<<oFnNV^dF<dLCIZm0>#VF%-}rss$O}84b!T1I(gI+8&aUZa
zCi<7&PAkbRSUz*zl>&5LR;g-~?l||l`aY}O`gQr<B%mW$U%F3q|DJSlo2|nkX(m(x
zP6vBD`>c^YG8}$QinZy*x6kz_`nvsLeOR-O%-l%up7to+b7Dcvg)tTA#J#96&-CI5
zyjbM>aPN)!CTpN0)#7KQInUY}v1KOyocSFVUZ5kYH6OCFU9A1;=E>`ewWs!XpM&*z
zZ5`p9AM}``uq|e;&%9YU6{myUuY8tsjHVspEXf=Hrtippzuf_+gT4Mt#l>nx-3+L|
zklEhVyQBNF2+(OMdun}lghNY@Z^n(1I)7!r57wt$>e1D^sYkXy-qLk{U)%hRY@oxR
zeV}8?cS6Rx^u%|<2*uX{=x9ckj%mDnnw9V^>zmb+i*X`A$1E!JT}&a{;o_w-ABmV(
zUIV`P`e66nfLCWv)N29Fd%Kv{rIP>LFU09!_r3brfdA$An)+DR;a%#*p%rd89qc^T
ze3z#Go;mmY;kK2IJG&koA>wqf^DMo6_%(MTRKbE{M094JZc9IluMgHKuM%``;I}=Y
zd@z&e+72CcD$u#2ZuUC4PfP9>2TkTkRqj4A&>8yu=-lq#UknS~y8RqD`A!jWI@r!f
zD>&;$n06c;+yCI`HE(j`f)A|EuylugaeisCa7apH&DUF>%7IQzqqy9w_$Xh8*Z<zk
zJ(MH_0v#PmwYP>>CWDR(wOqBjSQV}gbZkx^h~P3<UsERIy>Xvg#{XmQuEM(7!UvDj
zAV>&EDH761NC+q;N-2$`bT>$+AX0*apfmy!(kVzth?I0lcO#9YATVbx_|G$YZuYaT
z=3<{aZ$8g@ziaKif5CzIV+XK4Wx{&d0uA@t*OddSm!?u`ssJ6V{_>h|y`FdNDhKf{
zb^;UbfKGy~b&@2d(tF07-rFPohrEI?9q9RCo^U(l@ml)jf|34GM)@cc1*QYNzT)#L
z{NBI38nKOYA}L~b+q2Ogtn+;0t)1ly$wI$~uX7Lb3eNoiog-}ioq~?ILb7vPfvB2}
zSaCpS{Z6|VX$(&!^=iHo*NsIt6hMc-bykVQ4>jN+Ui<FBO$psbJ9vGd`!%QJf7O<)
z;BX+CJDJa^voHjv1Klre2HAa^ry0RB=N}AnKfL9V0d#QR|Nf&M_HF&!71lNJPa6z4
zfKKu&e}6CetP4+K2NbmOjpyyQ@cKaK((|v79<Z(%o5iw;u&f@83;}fFsC|l*#tqdA
z&8#Tnxq6<;06OgEjVMj{SS-PD^OR|E#vwQ`9q7KJHh2%9C9UwD5UjFLlo9{#vjOXK
z$|sfS#l8N4Lt5U=MMNM!3eZ9M?y+WA-7m<lX`QS7=R2<wpySR@`%{s;);7a$s@5o0
zmx2h;>1fhO4O?NM@%OrC#vb@Wt<M^)56R<Uj#~|pqvjO9Yg+|+gQEZ)+ON_dRr)8J
zQr|fbvY_HyDgip@p+D6QUlrZM7rynmSY3vj2+$G4pm{Qs!0jFJ`RROnYfwv{6}&#s
zb7=F|jF&XsaLYUIBL0z)^0j!F4)i(=C`q3hmZUo0P~}JM;O_aW3Fw?><EQHTG<?%!
zVZ2#q=vzVo(}B)qi^{jYkrLE6<oW%i{7yu|tR=iY(7AqW)IZ2HtX=JL%TytLSHzwM
z=<t6J$XMW_PJ2V}jG~M>t<3<?X<m54>T)nofgOB)f9dMS3|c^kH1r$Q>?1X=+`(G4
zm(t|4vld`|9J}-NhE(JV#<J+h9~+E|qyaidYLOW@FJ)KopQt>KEsO6mfayT@{bhqW
z&bR3L5+6(EkG{Ti?kq4J=)TXR^qqVz#_a2vOQc-emwK{l4%R2{&H83(K*8LUKwEj$
z52ukFKu3y^vh==X?>F<e`iVK&AAKwUofg;nQa6_5I2qYH*;eeQ=PZDZW}662v0uB%
zr(x7*?v|4{t7c$*ENtG-pecMDDh*Y7#C)UDJqM-(-S_t?Of|LvETV}+ci!wOd){||
z=|K10sYhL!1I1CIJ^h*-i*P&vH=uJn_Q9hFd3k!H{Yi>=smhfdQ?NcCb-68qY~IT&
z>m<$L?XAX?06OVA(YNsJ!s)QlQZhd=l!!P0I$P${n=bRHi{hOwdd5>_L)?Il#ZWbq
zEx{%~S9mqf*N%@CJ0@U#a3AYW6c99jHD|uJ{?b`cy9Cg&`&1v@hfN^NGW^D>{=vMK
z1E3R>Z?U(%@32x|z84~KQ`(vvrUO0CbpqM9jY1D3yl`KA%wYXddu$BW=e{WErxpKu
zXovQVG!%mR9aVr1+nwX8<3Qb^l>@@paW7fp-2t5$_lop;PO(&I`N^efp>F(wfR5*n
zY3VAwe$C-*RRz7kLy2P}czvLqJ0ID5p8Bv<mWOxWz0X~Gs}ZIHy>IyC+nJ)fGEwod
zU-<mCcQf|`bl&x=gyS+e6h?VGlwaIGye|&ZfzFkbctJM!C0HUj`Y>-NuJs=dOb0sG
z$%>wVx<$-f*x|!<nuDy8c0+ibp^hnDz?Gr~ZGVb-8tirnZiWz;4s@>i#lx-#c#r(o
zGT6BjmX9ZuU^>wC<cD}x<OgR5=aDvjJ{_>kBLZ}+GW(QA@miwi%)K#h@vD0D8G!ZS
zvzG638B=<6A|7O%yMf0M1?cGW8mvy*wsI_GFh_D7`JO5PIwvEcd!Yf<DtMxw{=_`f
zyF&!%VCa57Ez^$Bnpf3-x@nhs)~64z4|L!EU=oz1<{M@_SQBCv?bGXvhv`7~J>%S1
z*M5(T@xyu0zq$-=J5506^hLHxcJl*o1p%`IT8s`U3P6W@<HLj<!Ik~_>kCwk!x(#`
zdhq%{=i(Z^I^1T(FLW!TAVI2tZ#o{(36v>W{iVfC_$%(lvnBMq4>bXu=2y7AW^b+6
zD_p~@D)bV4C;**vjAucVFJ3+&5Pt3&Bi}YWsteZV8uLxGn7yUtP2%^3pOl#>;sKpn
z`yg@W)7*l4PUAn*B^LZN0Uh3y+u5QSJ)>qcJe>bbot-IQI?(GPl1=B@KebOwHEc07
z?$x`4vpQgXVj`Btj&@}tsiezMqFzqhrvW;nyW!-=7TQ^NUufHpbQ)S1z;vK<ojKtd
zeVrDK47@=bL#f--&H~ecUKfhZ`Qw<ykvO)6PA}=1qit57gY_Zi5*bE4H_kKOZgN;#
z7+=T%bh1CDyC^0a-N!AWw%Rzkd)or01MRaL(%f9Bemh1mW2katO{#($rUUIWli=(h
z@lH2T`rqwNce~JQJKFI2K-Xh>{#k%H2K}{Zh;r!iG@5u7Ob5Ci!q{(alx*_agtNM7
z_ZUCnxdS=|ah`;~dklR0SG)9cH4S+M0UcU`Pu!__)m<FLmf!iY^zn|h!1`SKHd%t&
z|N3t3mh+v08_%;FVLH%0<Vt_UdgUBfp3mvz-;IvM_XBi}dCN@<*@);rjQKQ_&-wX^
z!*rng&d+kwwReV`*57N}U*gOn7YC*Tor`Z<Jk*!0e<;{GU!V5Jic-5Kyv|UkykPBt
zwn6c57Gdk}^74nLAut{2TncH#R8n=BjbXP_)T8W=9F$->(DmH!?U<zOzfPUJCc<s?
zD{F=b(D^LIcHeZ+>!RD~2NAls21=g>ygtym{_Jdg*=F?>KTw|vy3um_Djuc-oy%2~
z>Ppa5%mr<3VjZd$QK%-MqfL=Njj`}dSWkmr<tuH$5d};KI+rBFOTv`M@<0ABJE->b
z$(Lr;;q`&e#kz5%arj+5{>w$DO26^#?`eR}?`(fT!Jl0}$a&^{v~KTO8NhU)bIBzr
zmG!<`{7IhuEn{|Ve31pF1D#7IRZ91|!rRxjN1ue5QAKuF)xi3gPQLIPYE`rNqU?>~
zjP7Td1Ji-dh4N~zjX%>tmrJWPdB5QmjRQ;vI+w27XBXQ1YMDQuqt-F#H5a%6otqyi
za?HhY*p#NXLez5ygm#|6>jRyOhUfDmo3N_ku-3jk!qU12RWKdsT;aLz>MMd!eA@+h
zP(I;Ghr0thACm~_OseH@Jd1w6-V7=)5Cn8?_uXs|nXNuv?In0UfPH=BSQV_#oorpl
zNtyCKa<gwI$#HYzjW8W(pXbjl8kQ(CDBag3uXh$78v6k{1k1~)#?p<&l|$QPQzrd;
z;xHZPzDJ&Us%w$RHcvhfZC45n=)!^NK<Bz%rrZ9vO45Aqf{OX{^X<TP6?mPY&O;6N
z7pQBV^aazjV`qdjQz0-N=v?t%O}T9X*!bP>nU|7349Y6ObfD{DFG)F-d+s7<N_O3H
zBNfGq2+#?kl%GP!-afz%HOWe>xT4Xg4AzGPHU7W9N<}kC%2z-gL)s)11?X%E&m^*u
z-A>x(VI?b+YY<WbbOzMg4yGz5$=aHDb(WN~!iZox(EV~5M=R2E+a|@vDpu9glg%Dg
z0_$U;sTh~+9RJHV>#oZCmw03GfX+d@vEbiKCevmK?(UWN_$^I9r_tm#14CV^6`J(d
zza{b&TNE%IXrGQoP3@IJ=L=S`w1PXrLQS)ZV0|JVUHm<ue)%5n{<Fyq7v`QcKnMRG
z&R;2hJFd<+-?C<s7<L0dr<fPVdd2Eb5x#1mj(s^7IW3^0F<}xkZZwbPTuX6{U+ntN
zSp|4~pq*QFVt$dmd#_{5;IzbM<-V5#(}CVMnhG5w8w_oiTNFfdHm)`fTL3!OKGUEL
zpYL64Vh9~uWoSFIz;vK<<*!i$*82KCc3tK>V;3zu+mVOY2Rav>`6L@In)=eOXX@i`
z&l@XB0G)lO2l2Aq*X^kZ`)(R`P?<Zxbf9y|OJJ8@52+)#I$LVpu#sjc2-AVi^$pEO
zCn>Sg+YD{R;8xi!g=0CeK8ok8iu+zmmb5%#_63?>o2y_t(79al8GcVHj7c37Qr%R4
z@oB~nrURXe*Q=4oF|RklpP4#DN4YOU9MCatRPlQ5yHMHhw5TBV{Us*~Ob0sG?=Y6;
z(H;C)P5DnMy21I;?N7lvukSfw^;diN4g@B*<<f|XgaA5wkFh`F8BwtI?gi*=7MWa;
zf$2c!x~Dpay>EjVN@~V(#p`!GFA+=!x?gOm*o+~HeCF#XCXHL?CpLXg!1_EZ%68Si
z!J53rxcgP?@tdwFm=1KVGT{hnw~_z-KcEt5XPhl=Yr=G(b0ydt?0b(NC+OZz4XcXY
zm7xH1$XiHb4<<)N%_L@fO-QX-M`gkKXj|bI4;nV(uCN})1Q&Tk#=~@=eQfye4Dem~
zwp@$hb~g_HY|;Rx1MSm8W@=gf<=v84mGFgFuj3<HKqrbQWJuW|hs`5ILV#TeWqno#
zULWXOQoMiaN%g||v$29*GO9ni=D>8Ib8)`=`b<J|t+>VimGBoF*9{9mXOukvTRk`I
zmDZx%E9xn$?<_DK=v;UqFYaYN%GT%|d0r#0q%pH24X+P$uB=YYRg^la-WwkVUSAP8
zq$>e**2>?}y%l;C!>rq&Jl*6Z?Euq(&J{jBiN)0*V!z_sJ+&!>*(M0nfzB2GL=RU1
zOXu!@S!QI{Y0-ycDX>2JznJ|({P(M|uX@JQcjP8i!E~T=_2&rO^Ez(u;eA%nE1Tns
z?FZ9=&ZR0YlBVS1=YcLl&_`$X@`E^_!-eDXGX&jI&^a~inx4fZCJLZaOmEyG6M6Mm
z>8nm!abf!VMoD;`p?!jDtnEZaQFiF(th_AovLZuZI?z4}Ww(Z+JdIH`=#*9eRPyZ0
zz;vMNA&V#KTgOn6In|NRC8o{@AcE;Y*CS3ajrn8R?eT!PgMebKS8U&7czvLbKP73+
z#F^&WbLS75q8yy>qF_4Exx$Cg96N=!+B1e}w$|mRtTbUd(Dk%;PNgzlt;w|c6guWK
zM~6)T(}Au>FKeUzW~Y1fJzDfdVFjD=*+*b~(qoO>(xw@0)~Cc+Y!0e7(f}Q;NalNO
zYA?&kU&dDGNG{(sfayTz3LhqCAD?|?sqv3l$Zdp-lm(^(?To|b^mOF@a@E`PmeQ0K
zWye(sus)fyxV-x}18#X|%*BQ5&wR@PbOPU2T1E={KKQ4z)b68+CT0QCf%a+bkHBHR
zI`i>gY~0Os%XjYFFdb;0cS$cokEGNTU4kMB+H6$hb{>NDNt}IsN<GIj8p)rK$ouCo
zrv%V>=3z-NpNzrKka91oRW$p(155|n=Y29E@xG#|T@j<lVeb4@4?&m?v`^iOq^i-4
zzt%y%#1b+Ri(JRzV11Gk<FpMZRUUl)a?tjk^8Q8@Ob0sG8<B{emv?H5wHng@s(WIL
z`oVOdb2a__oufgb*?B`B<HBu<ms%Xq$*6zbH4%)mh)YGAnH5kQf&%DND(@crUT<i|
z=Z&Qh;gtH*C<fM9p0Z#h(B$nG-SB_2#wZcqet=F}@GC|E&6SupQrcIenrYO;0iD$T
zb7=~iQ=hPFcPC8!z7wLrbfEi=n-<Z<(2Snh_9e&T&SFz=yC_&6tsN-=cYRt>lR=`m
zKK)7F5I|?jrooAw|1YmH^Pi1d`2GL=r9F7-fzIW_a|i!DP4q5)Z_-sKZ*@f?m=5$j
zQ}K>GM8mkJqs`T)6&=BM(I*0LJy0ilC-n1ZBj3{oZa)uyV$Pf>m=1KVN&;z-0sRFN
zy3V^QlX4zEHDNl?_1JXjH1FvhiP>8AxU<E!&rkq5+Ja+6J@gk5vRB-%DehTNj0%JG
zamUf@Iw;7IJj5sL`{EGxJRYV4?Gy01J48WdEAGTs7R9vHht>e51MPEdA|hk<n&Icr
z=e_oX$)pCffDX5~n&_m(x4fU6hx}YOe<sd8fY%2)SADv<@f-%7(zB+uDBmL9)Et-&
zbS|-%?}>XkoeKHtIjMswc?>N89n`PB*Nn$qT*}kd&fgN*ZnMC2pmXWWzbOcDy;Voc
z*2K<v$bG(ZA6_5mTrsXAuKvZowLgqK6L=~#FiQZPyBC9;E4m3=6-Rg2eNq@|9RMAX
zvH&LCDh3wZ8P6E?nd*LSK!<+}^V6Qc=DthdJ+3|lqOctyus)`tmXdTo+SVk+PZc>B
zr%p-$9gP=TTN0KpR~C2d2-zDSggF2@BVPn}XnMBh()xe(8LcPvaRWNS+GoY5e)Acp
zHL=D0VUrm<f?$2n+^#qLWm#+NC||@d&MdoC0_ZfPX4o24*nMqw&GR)3H6U^TbQ;U7
z8l=;TS9^7%H6zmqjky7xuBJc96;1;i`GGgpoj%iS><EDM5ycXu`6?WEBcYPxIg0b$
z_!2<J;^hZP|7?zPE}JKJ$F`_<9RM9><x@$@@2=fur}stv`~8kt+<;D~z+J8vAsZ`V
z_BI*)`Zs5G?t%3|9jOblCMvKSzb~76MTah{1kg#??3{1=sHu*tGUzn0Zdc|2=qyWB
zMAe*W9JHM#jYYaoe&7alve%7`@fRf{R9f_OIYh8!cKE^iw5n6;=kTqQGT>o$gcz!>
zl>j=ZPx}I=ajahqnaxzaypj090nia3@C{T|7+!9ck>o<#uifMZbe<OJUw_+P^CAfK
zP}{|KhGK^gtk3(%LfYX;M!RgcpgWzV1=A&fPPWScXRP@EfuV2z+qR?Zc?UqpVzh)S
zT2bQkU!K+{MWN{lZa~N7%gMt7)O2$0v#m3>8@_EjykLD;%bJ#^*i54$A5n_g51>nz
z06IL3KNeiojsy=gMt*-v^Bi&jbmW3u&g$L%5MljfelV+<+0G5<{Q7|>Vfm=>X(BZ(
z54XZa`wkCSA5+w#U0<V}tnPm+!6^sQ<t2a))>C%u8)9T$uU5{ja{mR6I{-QY{VRs(
z{)BsOw^Da8+keV&13H$^WyaoT^@h+t(+>Mv^m~2hE?A$p-Fs>pB6*sznAwDs-|#(3
z0G*N=8^Ulk-NeR{9g_L>TyF<Jhgy|GSYOIQ7|YgLKI$)x6*r)>Ab6EE>=`~)KaP+3
z!>{^0JKSJ>R;~|UI9Q(7upgt={5nC|D*<$z?xt)1_v;|eo{-~S$)T^SbO3bDKe5Ms
zbfps;m|(V~Z(VfZ26V`Fe{{X(aii|!s8Z~+diZ*W3#?B%O`G84cyF2L?c|{3ctV{L
zKu1EN$l;%xV6e@5$%*e5&IJyD4&8W|m(N-E=(;}dwQw~F4{ksQkM=n;pFZ`rvpm^!
zRt#<A4kuV2DN@?lu1<l_l$zv5X_jA~O8_0Z<d^Q(8#XYAwlvVTRGg+A0G$+!e;<YU
zy-Ds;zEZZ_4`<~Dbkt1V){masIAJSx=#JskVC`^#^+_r=<j7jjJ#BndXRpjNoK^zp
zn3?j?2;3FIVh%vJ6UB<QbO3bDy;<ejJd@sRR-HR4#?)$Z13DwwTr%de9a!E~s276O
zI2=27!1@sFh$;k!5K?U~Hh*Q6I5H{$bUu#eAKsp+=diWC|C4nt?uP@QBikZ%M~>K%
zX!75nSC#nF9d1B}_L%M_(-1*nTIJPRM<y|s9d@ujILlo7Kg>V&zKE!83NAVhEdg}W
z-_Yh091av#GTs>*&Ut*z0nlM~cwaJi+vJbQzoVb^e|s3Y0iAJI?yZuDWqOGyhqmHP
z?B*Rdus*#JV-}Sn#Tb1iKU=;roidgHI`&b_c)GQrJmmHx?Z0=0-a7y~z5kYL#hBXm
zKPPJ5rEq5?<_2_#hy=`<Qclgi6++oqo(MYbu!8k*xmK`qV__rs=QF9l1rFPiC4i18
zehtQQR*<z5p8tp67Vlde0G&<FPn6hqEb!CUNEVMo>}$9Ioo|uh-OoQJ+nubYd8cqX
zcI>c#^^v@b%6zlOjNV(}mfVYUDw`5Ohx{Vxdi$!i_C;<qdxwE6g9D&*)4x!Vz9pV#
zCy|zVibcAd8_+pjIFhRULs6LDo`vx(^0aD)8LZEV<KIUWttVT<;uUu(HbSnK06O94
z97}#S{=e4356M^e5^p#FIx2ySYM~Ri0!Vb0<J{xKq`3hd#yxBaOMw$-bJ~{;s?Cp$
zc9_8Whz!fW=2G0*QhWACmbhELs|3*5#11D;KQA<`w{|D+L~lNF0CeuJhAQ9fr^Oc8
z`}Y|&kurcA(8(XGe;^%acgUt~%sxYw%)G-0*2j{6Y^Ts~_%5$2@gJP!LaGu#hlM+0
zh?>A1!=b{1yP!pw#{tkGqP&Lv4bA+Q@?fh&%g{~}H=uLTc;11oe6zafIs4AsPYcu?
z2CzQjbW|A!*}b1ED`(;jlJ1L@06MKFv=|>qbNj87>h>;fv{E_%Iu1#a!V{8=a^8~C
zMXlpA$=ra>OEJq&nfL{-_C9@?pn8PkzjGU`kDL}?acNLdFW1sq+IF%`NC}|x*pK+j
zCL=xDw*BXDZEKlp4uB3BI^(Ah%hKt-<(p&bd}W;6fDRTv%^&Nhy;NTb!#vkWqK|gy
z!TKD3sdBVetf*z0T7LYE6nm=#(7D3MxP3Sg@LRC`oR7tl-NFIT!F#D^ENtH%>h8Oe
zO|Biq&JE}!1zFLJDW0df{EPHVdGBbsLkF)94$A-ipLGOo_}p<Uo_geUm9wL>=c_Os
z==Y4CnzvL)&V74R_a8>YbkG~*06JY?7OFdLi|~rmJ7+Mb7oAwZbnyT0u}~7`hHXlX
z-e31Uf33cHM*BAerURYJ!oYJG=T5vQ^I2KaJM3_689)bj?W!st%2;Ms0&QKwH>Y(R
zK&PB`^dXU)MB{K&Vu>(kfOI=8ynTnx#S-_A&|{NRwKUBUkH#*wDg>qj{hqpg!E7Dn
zM!F4iOV;hmlT39bm<|?Xzc_bW|5SJq(KpK~#=k;Adn*Xjfv#t=`ucBj{ocQq*B1&*
z2ik|Ed<PW`<4*D48=w1bu=2$>(tvg5r6($ne<&h(d7b(JI(?JAxklP*Ew_w<XIn%&
zN5lag@2-v*PUj2D6`X_o8ETtB6hNmTmusuVbLd9%9g+LxJ??3Zx4`;DCgPdcUu_Nd
z5eoj6aw9+052gdXj|r9iQWN3dLI14uTI$Wy`S<RC4o%#$q^mQ#^u0%eC`XdzlnyW*
z==o_!rRnBOrBGVB!oZ?M6W+uP=)8M!tb;z57{VLy_1Z0i5cwTyu+Ek17(*-l>mNwA
z2{fMf8)KIMIs$w$vS!(6?hilHI*8BH<T(I3!P4j*IA~5;;{F==i9&VvxM4b1AomTE
z(eVRZ$9X!Ys|hoP>^jkK9q4{h1oZh`Nc2oCcSiWU%5?1Bxe2c`^!}4?)yt;6mpa;6
zEE?dceVe5UrUPA%Pl9r6g@CgIl^coi4pW_tJD@`yVr9)-m{~ehyXeEf`HxT#&{<0v
z7Tld~nyc4!*q&DPtUta1*2nZPr#bEMfS9oyivRagEXhWg4z!Q^M><uO&TX&SD23Fm
z83GkQm=1KmScYF+=`6R%^LsEr`nd5xOa`U{UC#+yq%{3S-V43rUF?nXDta71XKskY
z;5&=ICG&%Hdh(yoGTN!&b%w4d%w{Wjmo-YODf={t$^4i(1kky7YSyu=$fWLwOI=d%
z7Waz`Ob6QeiTKymCB-1`H-C#2#S0B{h+sO<xd!xJB#Cg%+PzZ1z@B@>c-Th?)<@#t
ziO*Vv6y{z7s`t*Yu0a%_V<5k!Gt>2b(PN3-B`EFJFC{={P}1iMd+1ZCDdTR(nd#qp
zM1am$y_3h~R7A!lHl(F=9Hd-*6kvT^HYXPNsk!DT`>;!-JEMG}0G(8^F_sM~TfKF?
zl@jj}`5Gla$5UW@csHL=Kx)lAB4#M?FA<=V@HWSv1hwbF=#4;kM0H_jA30bbW8*0z
z#b16on{Phg-+%arD+<t=<5X%o`>;c%>9Z5g>zhuh1nA&aGt?|q_TOqR*{txcqCO!4
zbbkJ|T@Q?J3Ab7rzx!c5fT52Jtk2qKMLO-x`I3TLOph=*+WtlXI-|9JbPAGdCFa;v
zaq{!2S(N~tIbwO*wz|?}_4~yc=(;LHM1W4_nfG16>^|@4LgBG@O*cdPu7mY)IxmXL
z#GLcnU0qnqy%k{>1?VhLyv&`is@ggZdPrq-`qEGd&?$U!*L;76ke*7#caOM(gp&x+
zq3<HxV6O^{n)|Nl&N`m^wvQC7kDk%>JoeuzX`|YwdQ-0Sf>AIX=;r`LLV+KeEhYLd
zof1ID{pl0kBKnfsJpOs(Z8NQAaOZ+P2dTbb1-SC!e!X<!VXg=2w05-LJ8Te|y>tu!
z9rxfzdUu(VR@1qE#Fu9K8?(T4Fd?tQ-8csLCB2>qUphE|&a<$!6UHmP_Lt5o3B2<I
zUC)H08M?)AtnH=K4(KG2(mf>*63xAIasZuXYRid-_2I3TP6(j$HbG~X>p{q$OUDAx
z39z{}{CD8r?Mp`n(8(ko85R(tYPfV*03F9F^W)&{k+@3-2hc$i&Jhk`oy@y*R*AvR
zPne<bX@XvK`lZtj=!ogbeL?llE4p-Y03F*&LWUpuGeeh72%z)zsNii)f40n}V*%)N
z2j{=J!Juk<>Bs;&`6sS?zj#p&FC7*@XNdE!Pt~fE^reFX===-|IieG4R=adouYsK(
z-SIV{JI&9qE}eEj=k+`3p&^pj$(K$Jpff3Iog(^^-1X840d(f}=EUNUlo&1@3qa@2
zolePbMGF|0jtrpl+_f?#^S?jxc<HbJIv#Ot8yjURHJ1(!pmUw(z4_`wC+nrNN(6R(
zRCshnuXnLOzjWFG9o!%CR#jTDDVI(Tpi?iv{zaCdMfK7N0d(x|XUf}53}jzA7JyFw
z^AO&OcMm!*9T`Ap#%MVGfZ9d=(qRE~ltQx(HOLlGFC82}CpY6mf#rjZ!AobA5bXT0
zk`KgVmM=G6I_-dtS*X>pnC9<{OD6}=NiCGrD8r`2yL3VTows-;v)c5Z11=p4K*#Xx
z>QKJ0)rU(*2GC(C&<$~2x#4x`umC#le?KtS-u#<%>EHl5j+nlKcr$Y+m(D5y*!e+s
zcUOM*QvcDV(+=p221jY|I(+z_*L697PD92SCE<eJ|2%g>03G&n9zPMg81KuuEC3zz
zTf^ri9c%w{o@D?X&Eqc2zxdZJFW18Y=;+glkK??^`#;YwK&PT>ADzPW*7@anR`J2k
zkMDL7_KG00f1dqdp2#_ddpn?05E|r5caN)T<8yJ%<R%+d4onC7xv{+Y!<d#XBga>i
znS_BxyNnhv9dyY1+|eD)EM)@8jr=R#4Wi^CD}pc`=z2asaFNv0rz$uJ5dXvy@oDP#
zD!k6n&jG}O&b&G9<7-@YZiMMT*Hg|@Sed=sMR1-Ps;gq&zU&9nxeMv@BV2DeF!S@Z
zna_+be!FTZHp1)!egDp8Eog-OX`?<%9e=KCXudlQrURXejby)BK8QW$xIZ=T2XA4f
z0ZfMwGM6b%O!q;|-ZEvya_`v>Qt2p|4jshFY2s<g9UoxY7m%aA-)gR@1oJwDp2HN@
z8wt@>nDy#^<gP4^-L0pE=|Ddp^Yg5frXv|#ws9(*SuhBb5{Ky!K<1K?Rgy#Pc0Rwn
zPT}5HZ$KOzF2h4?-iH(CeyoPlj8-$pFxLb9c@j$Fczx3Sg{M9XJ|w}E;df_YIv9}k
zgsw2f=8p0hwl)2DUBw|lPzBQ=fjFvn&tfUFH@KN7vAsx>cfP`XzC*8fQmaWXbrNRV
z9=i>B9KYJcKA7tvhOCFkRRrDF_!<*#i66%I4^~qYFkf##udmQ2Jv9Z!Bv>|^cKqzT
zo4%tk*8@GzxGH{rW=f%tcolfM7V@yGb6`5q_2~QKtG}ixT;vf7rm*}wLJ9XALihcR
zuwxfvVXrPnXL#8oagvX4uM6m0tUvDQQQ{mIJ3YJLtp3z}jR<hAXM)F}*u{Ps^^Zax
zH@6g<_QAaWK-a@Hu&(e#?Cqc8(VF>O;*e0#`)c6dxDCCI{-tXBq$~U}qSSEjtI+lQ
zx}v~+^EiWDOUp$wY)Y=48*r{0&8Jlu$sc{Y*ncprda~4@z;vMdel`B%Ev75+0`DhK
z%B5L+yhmX^2chSXtNV`{W~DOsr4tY6M4@}yH`_GiUOJk94*u)>!`Z(h`j-v`pu^I(
zoMo*$y?5!1;=y~}0`0T-@2afdL-LI66}G9bGg=|>fR1vNwb>Ps2P2n`CZN+Yy$})J
ze~e}5JYH#}hZ0Ev=tz`ScT>Bzm;80x8=k0pJ2i?6)~7L=V<wL%7x(XCwFC*5Hf}sj
z2l~8tA*Us4AD0zx5^s)K`o3+?0Hy=IPLrHi6TL`$LoXd}K*w%+U_KRhnD&o7nfW*7
zst6RA4)pxA({)K?)i4!`PnH^bIZJXkUV+yc+9w^eFhtKclVnZ(KxX;I;!y}p2fCj3
zo|eNgN(D@pjtroq&Z&?3D<&5E(!l|AMArwS^*S9LTu82UKgD|3*^UFR4|Fb_jX}&A
zs*}H$>j?pLTq2?vCZ#H0Tsks<&fYFAYwf+)hL;WwpwsoLu6yqu`4ye8R)$w${R-{a
zV0|+G&|IVJ|7K?GH)dIOib@^==;%xJEd8T-5y`uK@*-xv$XW)_>BhkEa(d1^Kt~?y
z!51`xfdlBM)tfG{d@jedqE-)l(;t@Jjs@1IF}TrF9w(zEKe2U%t67~X1f~PMPK8!U
zjO)t{iAs+jVLdF1daDG}fu3htl?^i?y1txx3)7D{y(|($fX;7DwfU!P)9)_NPah^&
z9|_OXh|K!XTiN2{bl*&=l%oJ0b^E)AI$6}p7a7K1%jZPVlmHz}O@~<5X>`WR^GpQO
zf$kTBM6*=;BPTrl_{KoGt+i{T81VW)oh{S7w{tYTW}f>BjIvy5?P)L_=)Tv#tqCb%
zQK%<e_;kA;-CNWE(Ahj_w4{sTav(PuIKO9L-bM@PP-!HRIn}P=(t0(=J(nqSokfS&
z2Rc_ld1c%~vN2}UU8X_-9gC4Pm=5&wme(U0nh&H0rcy+L*#kUp2>8KtpzFEGHE};q
z_(<co88zdw^aloUK<6rr`D&Kcg*!v!JF39ytgk45PFwmFeY>&i&bL3cF{v7tHa4Px
zb^gF}Rg5FxP~ibO>YbZDi5Gr=&VGrVy09gST<UT;$tG^|nmC{%eA`c5Uvt-qO^E3p
zgRHwc3ZR1(PE_$qh|8fmkVW$$yZ*~YRIoms=u>L+PuNR3EK#<+xG*C9038a7AkisF
zhE_$nr{S(*IS<7F9r3e^tGxk@xQ5*%zf8KX-a-L%*2^s3J_|{S*~VqbZ5$_m)QAGs
zM}FsvpO*%i;icmT==ksDN!;HiSjiV`;qu(Vz!C>^Y}*E!^pf9a{K}+>-sXOig96im
z-k(b&xz2(eN7*^`shn9P(#zW~PA~rVe~^!x{-1wB9g*>Lra>C+bEX&n{iS1Zw~Q!2
zCvb`v_i$V&t<t20#qoFnPZQ8lyX`qyl7-eBUU01lU19SbEldY`KkPPSm+-++VK!zo
z`P9DnJZ$zHULUBFJHr)GEB1?ICYAXLD_hW~G?)&wv)7b{;&;Q-h*QaoB{aENQVT$*
zy*6;3-W6Nz#Eg6K9tLqBH%tfmzA~}~RmMbDM({(0WA}~awQ3ZY4s<SJL$O{TWu4OM
z)SnYRI3}s>XYe{how)hiz4!x+mMaq6=}(2%Q=<T#NBWM}6K?(H-O(0G3?H2MsR`48
zK9{|WW+RDaUSI_@VQrpl`A!SMbf9xN-yr>OHGlhY4(_;QYaTD406I0l-?tuN>};2)
zYbh@tWrno>gV!0l??2^P({}wcxXhoWsj~X#G{wVopnYzvFcQ}}rkJe7h`2r4?BH;R
z=|KCqJC+m0A7;L))hsIyAqoB}4(L$u-Myc5dYuB#_oZERRvrfqptBK9GIYgFl0CJ4
zJvK9ALZt5$UT5fBNeL5vk%`Jdy4Tl7R`(_S;$b?_{VG0*+_^tG`=z*usy{e#8qWgI
zL0xc&rk*#Q9X?i?aK|%`6@=+P=W4a`vh5oEn(*rUJTr{wL>UFp;TQ5IRKs*xpw;u*
zbPgRBX+Ht$%;v``|3{|n@0WK1R39@Vg`xl*_t9J~*>vHZ-@SGO@dAI%G+{c>{rW9|
z|HApP@c!lN4HlRV^ttoPm`0+jyi(Y~rP_rDmp^dzFT6g`>-4uX`LOC+gOEipe(mRt
z6uj*)9q4+#%D=zp;;Ov+dXHi7z7EEx5SR}1{IJ!T+!4Ae?@}Ia;5Bo#b5IGU16_|p
z{2YbC`R)9-nD0G0#zTG*0Xo7`BdF}nmAVGE=`%iDFzEIj!|M#)chl0x515^ntJzEN
zj3VWK-bsV$K<Dxv|Hp;#^DHL2<;F+3ZKGxbm=5&&6b2=!nd8^W74>gT-(2I#S{8)q
zK-ZJ($ZoLlHREp<U3bWg6F1-S5xhRoeHTa-yw<y|5#vUt_0g-n^Is!O2f7{-;g-D{
zU){O(MtK$va>-u#!E~VOVUKg^G&+B>fJbePou;BRDg)@K&EI<A5@Y{lOcj-GyD627
z2+%?Q9$+YK%#`$6-zfTdtB%;{Ay{X<#^2|ZTCL)OoDcD|ohzKu03FYkT+*j_8<YX<
z>ndY+>f$Y6I?(-UzR{Our>`wv)y!Y9@;R=Z1*QYtuSEwJnuC1a@wVAYs%HJ`7dr=F
zeX6RHi&7=VP^NXwmLdw=JgQ(i*pPQpwktwSKZ67LDoGFi{3W~gFbAds?IWTp$a5&;
zB2Md(i^FBbsA>Vzf%Z8v;!h?|kRa-co9!RVLa*h9=|I=>`|bO~pI;ZaFbk(e2O9n<
z?CgVeo~z>fA-3?YTM9GJJ}Z_rr3%oQOx6s<(Tn7kO$gaFAibFPgXuu;&p5g!O4k-f
zSlxe}Rxk3Q#VEmapq;-Dkhdy?u=fmayN#-v*G^FYI**M44c}U~+M@pBzSW<$6*jvE
zuQPPNECR`Pt}-fYk(Hc;^}T&wn+DT?_PNi=P~oC>r)RI{r1DxwTdo642m13`J8yl8
z-{*FkUpjEt19hsNnAU4tsTF9NBBU+2uVvQ<b3M@CQz1MV?7gCc-MA!_@auWQw@kPW
z^m-@7+;Fbz?|*pdG{RgD)QJ`?;A~iZA*!xP`uK{Ag?R}~2YL?4H>c5jZtgD5b>|I!
zG)Uxkhv`7iPe!RfH>uZBAjRX7)O}*kYC%9Jp+fKn;V>~7-yJnpQ&N=G<3C{MS<_f(
zCRV?+C7+XEe)|!3SQVi28Z~*PYv^44%Hx<y_v<+Y?to72wEq)PePiLVrJiQibN%On
zfKD3~t;cdq&!PU3rV@FP6~*x`SRY!<6jJW8J>%v_9DG;ZR0^vA9VZU7cTZ&Q;d`Fx
zM4QhqbGpNHpyzPQMU}DWI3cVlSA8V<QIeiGOb2=n57vs=*e&8F9&gL{t9teJp#VDD
zvPAQHD-}UCYBVHqet)qWcfdOL>3wB5elGB}gD!)sbfxI0A4~`OI^39i!KdO)9CP-R
z;7BIV_g9)Q9q9Wwo}aWn3JL%Ge&3OHHT`(~z938odOtiOBa>n5+a-LGH~#jYf<`D@
z2l~7S@{JTYz2E*)=ep>&u1&fu4$SpHoi(wJ>>sf>0t@5)2IuaSfuq~-_6vGnW$L5f
zEpFx3zPzut!*s|Yuj~BGUN`Pn+Qg7|<(%QPM$5zP1ATt|{Pz7;CgtD_7G7bz9uF>a
z3z&VNzhBGK%0b&IPC)(gK5qcixdxf5?)|QeccRl1OXlr>j4mO%G?)(b947p|g%UMX
z;q(!OZ)IxMAQ$d+0p0g4GBX;thc}I$e5X*j5F86tg1H{({U=kg;p4!`;wtva!QMLi
zJURtT2ioU+>~KoeI>~}b=MCy=m@%~`Ob2=n-PF?)rF&*jE}y3|FdZVueu;J*8h>>8
z(7tp&F_~WxvJSU1^m@N=jOe@f!J~eGtTEx0moXV!2fFXWEuHy-Dt9K{8+|}KRE{V$
zfH@b`8R(bTD3wg*DiOpvXXR7M5QphN=Q6Vx8jZNVcI)1){M}cZrYCS6=z79TgK0G4
zYOh_sZlQ&_9_Tq7Fs2>}8Xd_huXI?`RqC!-g?ayh{`|aAq|TBw0nc(s3DF|QhFnq~
zOb7aN=EJrc%&s-79x>A2_s-_+xZz$G(CbvOQsh;~;{26}J98r)F^&mv=Ysa}f73yx
zSLwb~{&8T$@G!!s1m;}Oeeafh<Gq?K71;aY>ug-Ddk$O&`dp?voxNSD-|l{{D%+i+
zA&DOXb3M@4Erv<4iadB~5tX~XWurrn(`8^f&_1)bvtDcAxb3Gs+o2I`y-h^~(}Aw%
z>0_S*JfXVI?oYa>qU?=YeOvIJr%;FQ6KN=$)ia{twa*@}*4^Es0G(8KO`UghZMxr#
zTOMU{9nUBMIwrl}s2};_*b92xOu5HVF-!#LbnN|2{7#Icr~jE~Qo#p<v2PQsPy2%}
zg6Na;hJqAl9@sMR`%!?7S>^{<ZmtJ35ySetUj9-jN`TH-!~!OsEyrDXJrgOJAoIIK
zfKC-NiSU=y=@wFz5o#{^bnCtius+kBrgyg4-D72%n2OCpHs_-No$_dG&LCQRhwgV;
z4Q{Wyhm-&vRFXCiQbw(XjQQbj9MU#~M1YQ-lu#cp){B6FnPpSSbgcNkb$ETC_tn85
zi`jD`jl<-RUG<!f(?V%59q4uX{IR<$`fcJS4nrO5@)x;z27u1oo7TO6@Wg{j2hQgr
z+KY>{fKFO$1{2BZO1sfx{J<ZcugPcE;Prvd#Z9FZ9@Ksm(|A1_r($_aGY!yriCtqy
zSz;X{{H_>RAbO$R0MN-zQrh3(6l)VYD19(0I~hj{=!8VJ_wacpDMa<Q5<Ge?#5DUG
zULWZ5OT=L48E={SP2T0E8S08^xhg=1aW@YypN*4K&yo>$WrC$L3Z?_yFRc-`_BU}d
zg5L=oubgp-Oeg_5#SA^WO7w=*8f2&s*c50hi2$96eJ`|hW*jM15@AC5u^sHbRd}7D
zbIJ4C)tyhg-Q^m-tHWopkR1i+)cPkFDAg77GLdTfAL)FURswV~#EMDhQuhg^;@-pz
zIauxx0Xo(m-`9k(G9&4l^^8;m<v99Q!1_?#h+G=mL%*2pL=z(YEiw=V=-BXBVLiZ-
zYAT|(FEd$L4^RSh)b6!xrE3sSGJ5cpUGMngO9be2yc*Qm4oUkb-{)dxBlH-(ZyBr)
zJ?kUMDzT2@dXufUz6o=SQGiZ<P0HsUG|dX!u=R;!>ZxueK&Nn!lG%fp!S*EQ!SV`q
zK>`t=^L>;5#q>Mhr(f67Jw!!`Bl?!W`rKi2etm`f%lv$~q~gCN7PlxsNBY~Ep|G7u
z&|%#p51;eyze<3PaZA-w9equTl|#m#&ZjQeM1T&V|B#2jnPswrNZqc%p-EHUB3Pem
zjAEfEf>h#HAIW*|)qI(Y0(4#xndA<rlHkOU^cm-RaxE(XI)N3P>vE$!&5}-q$z2{n
zKZyVxvT*_haeLMb(m~5Mk&v{Zz6G#83Z@U7d-LA^WWlxDexJZH8wKcSEd_dMgmK3c
zS>G|_Y`~6I0(73EevG>pIld9+>sXv5L?A~5=umm>=?v;7IgGD#veHxilj)lW>w{1A
z=ppAvQ9g~`FBfT(j2uybPRES^H98Zi-qfocla9K2{7QfhkLkaQht{^=S98f8@B7xc
z5&=5iWsl=h3#`#qe|SgoC*_#+&4Kmtwwn{4EFFx!cja?$n2+mb6reNyhHd|*4vv6X
z@y1XrnNhG3Ob7bD;7)V7_fJB$A=R1-#^mK=5?YuJ^mU6U-O*vCdvZF9I5pdoWnzrk
zS+G7`!Pe1q>S&2O^4psAgEm2FfX*K(%gnKNn_}H0LL_qi!l(v-&d2h1iX>vKopJ^Y
z|Fo9s@@WAb(Nu~sS!Vlj6Uy-eLY4H?*%`1tq*+3CmiK#}ddR%94ACi!P6KrGDEH*%
zu6_MBz4?MN$O~uP0Hy=|9EsTJ6pgMR#`W^^C>EFw^!)`DPhY42&E&tu+h$uUb_Cie
zFdgVQ#JAY`gGpa@GgEGcma3d#zHu6?a}urEScAG#ZNW%Mn)(MVFF!y>;>SnNmDg+I
zjXHS@u8{?0;xHX(A9~ebdEyuML@z(Dqk!o^_p2n6@oAdZVRi0HZ`Af{ES9rVV13v)
zb8R^zw**hGog{|@(9EO(ItxD;*;2A|LVwLM9okrx${7GU1&yIyLHFO4thG#+{Hamx
zriJN1JAV$xa)=Et%#6BeWJPw)zjr(d)@SS`nHIUs7eyC+U*f@Odgm%Y$DwOafJyIh
zMC^-S%)(o=i|#NT=;zq9h6B7!t5MQZbwcMxwj;4{9q9QPTEzW%)pRjp@SY*Do1NC6
zIL!4xuhX=R$)~N)(y!CMyn1qwf-;N(=tPYQNDe=(-Mhm{BdRJ8j^8)|wqIgW&x(78
zvW7!!ihi|+C5ih1I<lG)3FJ@lm`*wdtnMo6T8RTX+0DbeSGKoWE<aaC0dyws6Q0S_
zmoW)HOyAFM5g%$C2kWDLIzv7yZ{Lz%(ZTqj>=wQspc5Yc>JybiycVHFHeOJB|4VT|
z=c7f0+n4l<PrP4J3qO<@5TF1$rVCA!%9Z7^%C`Ko*wg<k8ppu;uwa&9l|B6_U2x{n
zo1CFO<_GA=<ux}9s6S@?sg0SMylW#W4(K?c(oQL#8NMh@td+zq3Q9l$boxE}n3C2R
z7;eNj5Y(k43pb8}^?4b~<jNgz-JEJoMu%A?G1L#HgA4hdI(SSL&E@rgcF|zoTI~$6
zdI(GhdjDxwx{2|RWs{YY!o<k&K!8*R(D5`^^0|W>!_f4Z7mIaUZ59Wn1AXpXm56$J
zftKG9F_DvG#rha`b_8B$=>0jG3Pt<kwNes#XesV9^jQBKm=3g0dPv0&&k*s1=LhKJ
zbTr$$7BC&?`-?nn`@m0Cy(i-qOr+6OHhO|E9q4+#kzK72Mx#xzD~&JU_2~9G9){Nk
z>bSFUwRHV%V)6}`*GU(T&aMJ<>>{d5wx-6IFTbyJhv`7Se;392`F@J9V*QPzqx7rS
z{_hN6I?%aTb`8IL_HD{pW}WcUnWaCb1$5s0@J$Zo)_5%K{Nyc7k7dQ|5LoBcv#XvI
z--&Ras@;1qhDqs}2Iyo9F3tUt<mD6{57X^Zt$S+#(}7+Wl;ZYv1+CSt2jplEbMJR~
zumC!c+Y$0lqySO?DS#9}3LpiL0!RU*08#)cfD}LqAO(;DNCBh(QUED{6hI0f1&{(r
z0i*y@04abJKnfrQkOD{nqySO?DS#9}3LpiL0!RU*08#)cfD}LqAO(;DNCBh(QUED{
z6hI0f1&{(r0i*y@04abJKnfrQkOD{nqySO?DS#9}3LpiL0!RU*08#)cfD}LqAO(;D
zNCBh(QUED{6hI0f1&{(r0i*y@04abJKnfrQkOD{nqySO?DS#9}3LpiL0!RU*08#)c
zfD}LqAO(;DNCBh(QUED{6hI0f1&{(r0i*y@04abJKnfrQkOD{nqySO?DS#9}3LpiL
z0!RU*08#)cfD}LqAO(;DNCBh(QUED{6hI0f1&{(r0i*y@04abJKnfrQkOD{nqySO?
zDS#9}3LpiL0!RU*08#)cfD}LqAO(;DNCBh(QUED{6hI0f1&{(r0i*y@04abJKnfrQ
zkOD{nqySO?DS#9}3LpiL0!RU*08#)cfD}LqAO(;DNCBh(QUED{6hI0f1&{(r0i*y@
z04abJKnfrQkOD{nqySO?DS#9}3LpiL0!RU*08#)cfD}LqAO(;DNCBh(QUED{6hI0f
z1&{(r0i*y@04abJKnfrQkOD{nqySO?DS#9}3LpiL0!RU*08#)c@c(@Qf96aq_wgZ3
zTh)1PqK~K2nP0NJGe?EI(5Xq4cAqj;=9}DMjmh-;ck)!F|G^!K9`Y)#D6^VV;odE#
zT0gD@lm6@V6mO+do;&(nTgY}dnof2=eIsYGY9NNLK<?L<@Hb-Y+k0gV_n5tNmoJ<?
z9}O0ZUXeTFS9u;`7adL9ds!MK{7&~_+`c)X=gNy;-*LJ<-py0Wdd$)CvE6!w&xp-a
z?!RX3J7LkCY=tSmag_6{M=8T!UqwisjKsFAx15HIu`}R}e{g=3JNlmGu(Dt)cACAB
z6(&_+UAX<6vHTo|-vegH@c}(nFC`gNS8OZhG_=91@ffx3SME2tY>DJLrTwccA$N?H
zpncNAUz=&YK{PBSf)O*E`4&?uqD&>1LsiR>k?%47hhg?6Rzn`Mqd+`{6g>uAUCPrC
zx@}Yn2YS>Q)pp+WG%9RTx!bt?Lr%wQk2EatmXmpM{Z~w*1``Sk=60VQRIuT@+$O7#
zRb|xUk$jeJQu>ox0zI(kqw$r=Uye6wAFmBY`6(42Jd9pBW4ojGHNIOW^C)js#I>jC
z=jNXg8^KmPZ3l<kKTA&)a!6n4k!bDEzSOI_s;)BIT05k1MeAb-(V~f@M;tm<?8BgO
z^JUfn!W*Wxg;!_Z?e|OQoE4T7c7D&f>ppgOe~P+nvcZ(!$)L^Lkp4J}56#KOf-TBR
z1d{-rfKq-4&&4@PUw1e3*IS;=CFd$3i=?FAk3T=^EBj>k*ucf4?rVVdgV4MKMdr#6
zWF7>$j}^L1b{%DgQuGWu%l<{ho_!bjlzmv6$a#^9F*TydJjCbHNc!2lN-SHTd@c!J
zPnSwz^!s7FtL_BWq0=XW=w||XzEqfI9xDFwWo~M}u%*Me7;E?Be6cMJWyeKaoyjZX
zmXi`Tow(v7Ei^xd1ifBXU^mTIRUY=cF3U(3N@peMDe|l{oNfKZ!tV$BzbtkKz8TEA
zbbr=*-mmM+Kh^QAuv_YW-yDUs?GM74>+E<D*!(3v4MEq|tYe-MnQ~s^3D>1~z)lu?
zZEOnVYt8er-*&~m0$PK)=(*c@LxkOR$3s0YH)ilS2nDMti!t2CyVWNg$GM48&fl5Z
zphw2{wNg89Myc$TWl+4cLV06l8ozT;VJc(6gqhA~slQQL;8gm>%cM$v-~i={^W7#<
zLoHr*VvPBP4DrHH9rDnu`w@Oo_Rn6hIn$f*81P-Zh;bcsA^)-A$h~D7CX*%Z&!HM^
zPbrr$Z!Oh?%@qGB@%!8I7SgATTtm8xH_o$qPvT^YRe6fvcNxk$G5SbIIrcOwu}j6(
z#k=oZnG}}dt?!c)s@`v8ukbP7JQN{U9d+3JBJ;uZICC>~*pBchvbi=+lC?W7Kk)2+
z8_6p5(eW#@=w})+D=A@uNjCMI!EQv0Dy1?-d~x(OJYPHh)VdR_m%VbSOIlSC&Gyu`
zdtjlxj(*>I!_0m}tw;Vt^-ocO_r_xHo(OD?yEv`SWTt!#yNSnGmame$_kmpCj&iZ>
zn+NgVFug;lX>SIPpsp*feUBK%ee?AbE@j`J@9Z<@n0btYzY1i!U3<tzyX-gkikkzY
z)kD(if7p#;{c%j;;I7wL+S9|x^vg{Vo4J^p5$YpPHM>7SHR+9c2hTRlUV&hEFx$ZY
zcEyodblzIBti%t)*%?KDpOE=A;nows@SPL8UkQD?@@U~aDAq+g<2r=y`PJW7+Q@8s
zrModDj?1GGD=IK_P06Q+O?*RDCFXf*s@-#<e^pt8XUd9rFAI7^#fg@nel8e2yPy27
zJ!__~-~N!mOu^?OMwNK04F&(WL11!m{!V8Dif3F>ZGr68f4A1|@#p{DT1io6$9zpZ
z(QmQ(yK20M>tw4pF%pu<vbBnyUmCHeid}n6AN*amjS|Chp!oMs*+d!Xeg_}kXG4mL
zSbvV32kJ~meCgLZ;wE*)Z{4Be5I<gj%(R@g$SPFp7q*u(lNCVf-^OQLIvXLtsVVv_
z{ps0S$|M<OQGOy9PM3B$PxO1i8mrvLl=&(s{mjbG>iYbz#L5x}eCt|?i9_Rb?;<5X
ziwfAs=2!BNII47QXcZN#so@r^5y-1EK|haQ=Sa{|*AI64^_0})oOV03CA%@ti>k*i
z^`+SY>wytx<IT+!4Xz2tp%<GI`iita*VljRXcR0jcZ!#I_wdetY!YEtRr`R}KjWfX
z5pU2OaFvfkYw_K=0p(WO?AC*0+OKkM%KNj_XJw&got}hQ_H~1i*HvY061Fpr&mX)T
zTIX1ZOd_1J?+v~>IJ(KgK7eHs`#{HREYC}4#5Ca+jg-BFc0$Igo;-HNqEn}<_*hC|
z9qN^(Tepv>`h>_S96qz2Ilk$9eUg<LSDAGGd-!{)vjXu&k?-#}8(%igzLt{1(`dh{
znIKRe^K_k(TN2y-0|rM1uQR7*lXyZ#(_*ICgV?E?3wD&12PK?4wo@U&$!(7&)fi)^
z(57xP`!iM!5vNw+*CsK^X;-p4&)YQ?R6Gv;$){Mgx$6_I;HPR?os~kyCM-qts0_=H
za_V7Vo2Fu#rrLB_O&BgAHI+GQL%9us@|<!4CKq1k>aEK3;5+5iH$Q9c*=NVbcKbXN
z__cg(@$k8)pY88AC=+JC#<kkIL^imV1gq3|i_HWK9=27B^-cR>%b34<KH^a>V30ec
zHLqS}{q0O^{l$@8USV3F*vWLaN1fZ=6E})`r&9el9lfag|1m#O^n4w6Z@qx2@R`a*
z=_2m^P}LTVsLuYLpvjX*!IjM3Mo+$dINK_B>$)QFx-A_|Yjbu}>T&91svr3iF=9-O
z<&o8ecANEfjCak^QPw`vX>nyL5;Kpd=Vle#-w#MISZ6l|njg&6QA}15ZdhGEUioEi
z*<tL4UwTSDFLJ}}HRE@j(4t>&#N)+%)lHn#6BiSUodQSExBGRmH!-dmJvL_aGrd84
z*Z4b5W`w)M+eh()%Qod_Mo0M*`ZJ94_7_rF54}C=q{+W@@o!llWAlbetn@su!1?dR
z%=mMS`TPG}aW3cAeq(mr7O3EDcSn)lWn}+yBm9e{yvogg2h6OYA1S%QR|>|uo|>vf
zdrxJKS*qL*XHI%$m0!N+u^p=Wk6KmVR<hPa<&{7`$<&dBGd>!FBB^CJ<3f%8GkWSV
z6=Srpo=>6I89%aSe<>i=l|2p{_q5&BUng)W#k%$(8n3&>C0?R+@25eTkXk^!MsBGb
zE8R@OqTH%x0d9jy4L^^$ud!F?`LB6v+Y=_E%^U4cqUM6wi{9w7lTM}ZW!>B6mzTp#
zT;t$xK<~V6IYO6e|CECK%3$EenEGE4v0Fcm8EzfCEq^a5;S}56glEP`@--mhB=dk-
zrcO+1jV55<colDHX`+2LC^zYZX<JFr{%ksWyZ+l2{%KhLDc9ePWGq>_^m8)@BSJ;f
zjiXQb#YbuFKYnoYe^~o+ZvLF-9huN>aEXyxwk>NEerwoMN&4}}wcd9bJlbj%&F`tV
zpA_YbdN#A0xEIq2E8QPS-wdQItC~^TNJ^p?t`NZDai2wDddP8WT&~4M#K2(S#!pK8
z_~Eh%-r$63GrzazbHdS4clBQ_3&jsR?0#H{5Q~X&jG;Dg4t{%-vYR4u{+n66KA`b0
z@xL?1QQ`0|`$S3k9_B*U__BGFUv1q($|9@+yHZT4eBDW`g9UrX46ke=bi4Z9im(Ru
ztxWdG$(={idh<+!rbX&&a^BdFs&ZHCJbn}^NAsZnc~DQB@PcR9hNw$#GI_Qmg-L<R
zXr1@`TSBXUqDQo+Da@hXTIm@Ho#l$$yx1l?1J!ZgG%FufGWQ&=j=j{*^lmAo2^OCA
z{z!bY@ylAJ&{ykf5mw4WmU`EOMs4R*SwZ6VwXVAZZDl!6Oq{leEN4C~eCt|!PE5&p
z^EGwY^^<mG!9+rXsSbAPZj#Zow!c06{|h`o!@tYa@&i~w_N4m^a8Eyk{H`2(i-807
zu&o`|9d>4YgG{cPlRGt8W8ab+*E}-?GhTy8u%}P=jy-yoadh(!hhT>mT_^N!%UejW
z)B4si-1Dl$-fHk3nwpC;I2YfLr+j|Hr*s?P-L$$VuW`viQ*u#;eU2XCkiLeEvi;sh
zzfGgV*y(6DU9zb+e*0OGtZ~7ehTs<yq<UWT6mI05_Q;vv8Wg6Q1DKo6n|2kuA{-uZ
z$dD(a7cSs-4My%Amo8#L9?2}n-Yr--x&58{TnJRTeF1PcQU^!dh;`TVPNryhR}~t%
zl+sf24bu=Cc}TrhoPy9tl3nNKZ!cw~206VQ1*&A?!<H`JXhs)w_h#7i^#H!Hglpf)
zoEP)D<Z~UrLGkaslFu^geBLPR-6@o@Fp(~&@4oZatr2qxFnWBQ?b-7=V*5Y$j5j*A
zzshxI$W@uKt^NF=W#QI0KKhOK;UMADIcgdNmg7k}T>Sr*S6&Q6i_51iZjt#1tH71Q
z`>p}64S3qkoNaUBI1GU2{t?bAeB`CHbb+=&U%zBrVnRxYS=(t#fBo5p?(OV#>!>?-
z%1nns0@f2*R%}UeG8;{wCsWmzk-WTKbRX#L)hO}hz6_ZVTufEZPr?)PmXMOYByvZ~
zlBKh$(x<{CN}0%?86gAve^l-&HDf2HxiMk)@qIOt3GsA$Qi*D*D#89r{!nH+W2Kh1
zl*Btdyt|}=Zq3=g%!YUV6TR3(;aL*WqTtI&OU}zIn%jSM&}5u^NVlUxGK~-=gj|~U
zy=t{$;{CWj(@sLgH>_;WS+QE|ceOMj^To&VY*V_`I0<`#E?HYvS}9eTPW$F(B>Ajy
z{ksRvc|%1`OEoH2+}}|plh%no{x13H(J5J9sJ@;*m;965JK0JOz4fbLUw3V=rgCky
zNt1xR?u6eJ$Ijh!2fh1;m-FrXIti9sF#Fx$%)Gq+%6zZ=@a=_3^7b}Jb+an9CnG`2
zly8YYU@KY`%KVCn8Xa^eNmPsXF$wgAu1R<_%dW_(Eh`l=d|VgaDBB}P_z6>Mo;KtX
zP9c{-!UOxF5|4b9A5J2|k08e5b?kssYbNtImi}T%68TcjYhH>O@ct#mHk)q%+(_g0
z_$xB;7(m?C#G@2{a87_)9_QG^Q=pb7bSXG8^96ue-?Y_*KnA`90LL0w|6zOTE1+G>
zXqho&<{5yQcm|s3IV&rd*x+-Zeax7|_8SYJeawp-UCq}3=8j>uEg(bR02RHcb_KSg
zZy^IQc!zF;y6=EP(X4Edk?(=Xw|S8wBR@da0YL+9habiUJf#jHka%H&1loQX-JY>x
z$FL_H)EUd@>d#AL%ECn%bSs5D*?fVlx5F`gWCb$uzOFwga^>T%K;8hjvBvFjj;vv?
z1&V>0)&II7VGECd(1}5xvkX7(<%JON@XAD;k%=Qvq>k7X)HvVf=r%HT`Q`Z7C^9E=
z-sSqd#9k@+v5V3l>`P?E+<7NHDJ1edHyF7fy%Dk=gAWPq__h<pXu`IS*ptJ+ndtI|
z9Gh|L?rUWC9!{KNX2PG5$4q$V?CVK|>>$Is2~cxmk9&EU=4FP991WdnoiSwlj7t||
zG*?vR$cw=C)QNdrO1eTGNF9e~4@YInUhx@g4<ypEb0a}>?3sNRQUK9D(Jy1pceu>G
z56!`>P^~qz^)hu>aO|XS52D$Q(QE^<d;Kp!t0i)LZ~%cOfu**E8GTwH2QyB<`nFXW
zxX?qe&%lo%pMn+LfSl?X$gq7&-HfE_2t?jGknb3_&p!VOwr&7<Kz@T`HzD0OhG55r
zdLj0>$P<vJy(4q4;L8mz_!R8_8j#Aq0N-fv6T+8ZMPHW`+pMqP4x|a|!WmfCx9c3+
zsOMnl`<!9d3|!ZQwskN=!;4;Ydjqp+3w=Y23fVj!K99&miPuHWP<>L35hf(G)ffxG
zSQBb7YS}>N5R~y--7+hfdBSDGRMSe{)0Q*p*-eqXL^^OL4!X!*A$2DXdK5dtoo4R7
zE|L41J=Vzo794qH#5T?Vx25!uF+~k!ZnqSda@BT@odH+Ks$5+;eb6bg4_ZNHCN^A&
z%&VL#J^7A{m_<&+F><eG;CX*n2#UNg%-mg%{d~{*-079(Y?~uP!WY<GDf0~Z_L<M?
zJrIse2@lF0lzV}k$b5pk1pLDBCtB}OeO$^7T(vJ0yBfQIdx>6-A3fZDo{x{lxp|li
zpAlvc4G7wo-~<W!gX0{oXTd14o_C)cFlm_wANGo&Tk#H@5Wz2T`2GcE?6PqIa>T?!
z7hKvsXE3?t=Y|{~?HC^tI9==WQspIfXkLMR+Ymo<Q^8Gn$Qw}P_v|+1{+bGWNSH;O
z3SJ>=_5}hR8EEWk|5vb@8&D9uch8DP*ww##@C0+rkdfcu$cW3jY2UfUVEFqj2IJpt
zYuLgOE0h0P@Skm|*lfBQ+Izn1%d~UW&cfkkNM;EkRhch&%97VSU1|nTFGj8phwerL
z66VsJNtVa?k-L3E8VvVs+Sx4PLMGw&iYrEf-0a_#tOT`B8_%8&vV6O(*YJ4MUv1TY
zD<Lon|Eh?N;)xAH$=Sy);v=iJ6zv7KRSWW;CfpFxcWge{m$c_+<Vv2>O<(uhPVi;2
zH8uW({Iq4op=^TK;{O?w+O-gpml{Oa5C4-eX-^-8tv=g!^!ff@qoK7B)NBo4_T{ug
z$ZksdW1G@2iR=Lp*(07)xA&k9bXmiX-X-DtvE${Ufy7qlFqEg?3HWtrLC4hJaXgzo
zo@t^8c-rNfYg^h%5XYZ>BR1qhUJ7DOPfMv{tG?N1O-9Kv7tZbm(NEvq4Z#Ld8-!e%
z^9DDVWdFaJ+1m{G!kH|unT98P#7s85nw{K|AKx6@XU`GpEt1IP3E|*56FxLC>P<J_
zOt|=JfHnTC&z={szBG9J2$3<0!;p;ScO&+Aayq=Zefkt$USZvhDd=;;=K8t(kS%$a
zyl-&(&l528@^b2l?zyM_X;Kn-afte-a8Hte%cp>jrP$91ZmgTcVHjybE#ov1(kOhu
z$AGejgu+>LLLWLs)?X0bpAw#f(!SD;5p}^$gEJojuWMwwM>sJQTKBlD?}Yj!>X^r1
zwV<e{T=ty=33QK6Lmwdm>bqZn&tp$a`bh{~bfZ2NAKk+8IfO>{7HY+1T``zZ=-7x8
zYug+lv9QfA;bCW-nWH#}BkgbJGuAUoC+CvELkh<b`t08W_d^i<cN9@udvZ!B2|LQD
zj&KTa7$;GFXVyRQyiPFw5Z%F)g6F&9hHiN>SP#QNHXhsNLZg<U=%n(CLB)znO-_l=
zndQbo04_JjD-Mx2yuxD>RMW|xe>l7D|4Y6;n#MUcND#zse+jPbM?A*zO#?@?9MO;u
z*JpwfQG7Hb4ABK15RWXxGt6|wvJ9R%Qh!pV`iB4iXn^#N88%qpyXlMfG>BQt+`X?k
zkakAnP?8WH)3v9k#Ft=0^q+vU@5K#j6gZig%y_~5IC>ownp1LESgka|Iwp$fe~po1
z^x>b;CnL$eEX8hNv0bMAQe4aTtA6c*jDx+qnw20P_-juOGMDR-AY`~#Il|kcx)GeG
z7I*|{UYy(ofJKynhwM{zHI^3{lP#I>9dRG4$Ew0h$3<LzDMP32P9b`M&-6TyQeCBh
z;^VNsbsRSCead)+I^No4ZJDGWK-3N;`XXWTTBH<(e$A1xpO|u%VdteL1|wYpFH}#~
zrs$Vl=XypxwMXX3B7h17ycXyhQ<0UP@&aTvt-0Q7#@`gF8dLF0L8(~{*&@=MitR#8
zvr2wbRB2X}Du6U6;k8)NtcI+x(42~$T~A(0w(Y4;%XY%PG1C+$*IOVbw;OALo~<)~
zUXeQV*Q_VMD{Ia|JIUZfO>@ocKMJ`>mF(<Wt(~8ISnoP9zGkPgJc~LcZt}5pK;+Je
ze<j9SXRF45SlKAwBqee|bzo+w%>r%azW|;KV^*m$3+ome@^FcjoAS2{LG@-$>WNR(
zgB5W(mX<`;Shg=kGgDhCEp&j`ePiG_a+f9L?q*Jpw`jaSG7eGycD|`@lBX8<VXv%p
z#Y|Or=h%F!Hu&r)v%soto;nKEbJhMSpfFS!-B4BZv|X{#z0H3t(Jxh6H+|HWkIZC5
z$R8cpN*TV3R~4(<%cSpD`V*+p2D<*=0h17T+RdG7bJ{o*hG+i~HeldmlcqD-X*1n6
zZ8!a*5k>}WY{`{m68h^`l5G%#hS+5Kb~;0vV4d?=(z)njnS8pwSzqczzmM46<gU8b
zB#QM$XrrpsREkB@B{M`S!i8qakOyv7H|EB;G9SO(zWGkS{c}x*wurq@FvU|HMc-CT
zvCEuRn%!L5f9nrACKoZeG4^Bjc`G}iiv=-?azo~_5(}-#U~pxx`HTDpt`}3aNV|J^
zj?9XioxDkVNiEQdi%yA~kSO{}6{o^ni%bp$dl=Y1_7_l6bG86`7omvww1{V`_!VWH
zLpCvLLk{b=lLXh@2rtUK74dvG9=5%cWVTnn=z2rUhLlv%LZ7~VlrfX8NUP-q1q!B?
ztV;n+1vmUBBYeSxIbC3C6fcN2)S7KUEgh@1e9(ha6+O27@Pdm47faU<<AGwCHEEHu
z#X+TX7dE8Y^et-bp(z@@q-bDDQ9Q5ZXi`+Yg^Uy{<eHI2R$noREVwbYE?cIaf}U-c
zuEK(L>0H!Wa^Ir;n{;|md-3V=fjb*GcUC*HUghI;O%nE}ZW4yhd)c^Zm=ZMaC1TV%
zLD%$+Tk9;N>C?^q^pfFYgXd`cS$`>Egy|=xHLkXS`bn|+nbN6LjHFWNe)TeQcl6-0
zAyO)~;3+k|8tGX>?<6U(@^0mJCf=!B8|eF#-G=yHh4-4jd%AOAT2btOxMs}wqnG*b
z32`>rb+PNS+2pKFnMdz7Q#!l9o#dK~e^k=2nUTcEdnWYsR^Iym?EX}1IaTmeos9nq
zBxJBiN7P(gkVaFNl*mhqk_%_3x0{l^m$q|D<!<!Y=)mP)<2BdZjK8|iDDuAqxy<iX
zpVaD&EozgaRLPn_pXwu{{fy*{cGVd<MmqNW?1c&O+oK7ww}j-QlcN$ZF1A;Ct#=l<
zOEsTS!-Kkp*<-0L5|nmsSb@`SbDI@TyDq5!YBz<!X?J!F(B3$;c`nm?ocfHje1TJM
zy(4?Xsn6-0<v{he7*M^BWjOUeG|Mxb`brR40@TNi-E*vdZ}=LhUl6L6IQ<1H=1k%A
z+jvhTLjQ2v|6F2<18~V6;TaCV<$Jap;sA0V01XzvO2+{>BbduaEP$;A96&Sk000;T
zW{7EnkRWI1I>2;;kie)7j-Xv!!V!3XT*w8OpwbLSkn@ZgUO)+)OO`p9U}L~_kgll0
z5xBSnnh^>J6w?Mv0GgW#2p)J2^hk=OjISB6C;D0M(f|ppLng~y&ani7BE7OB!1@D6
zU=#z^flrkeJOvQczYuDS;`0g;n#Mt*n9@9lBS1n!h>%Oj{8@+qGRY7D6d}jKETXFh
z974S_2D5fI4#o{kRA>ZO6<`ExcXWw+mP=%JbUCBnsDMR4t?dK|ii#z}BIul_U<6Z@
zIS@hfrJznS4xt`FKqI9eLMT}Q^9B1!Qbi%TW3o$MiFVt&a14Hbq@tK*k0i*Os8V!;
zX0R8eXod&M(QSd+1GC4V7)3LnHsgd0C^s20pmqg?45$QZpTVRnFoPAw1egJpNrnul
zJT7FY1Xbvm^|0dbde~t7q#x+|L<Y<N_EGhKUqSPSddXIB3G`8Zr0J#O80tr%K+|C1
z0}|l8+B1N27|*~(23fWX83bFy8N4t&12Tv445+E7kO7>-xLFw65SWG3WH${{R`Z;v
zPzFBdIX4JDIcc{4T9d%-!JY(@K`;+7*_(-R6Qy8?IS1wUA%tQjgRGzILs;49=76Pi
zlf5CIrWwOQ)C;_8npZ%G-C!pMLuf+{By{XUU^`}Qov5YWNjTu~XFmWSrr}nYTx!e$
z+cbQX%kNMF)<q^2voRDk2A%G2pe75JAt~xD%%G=hrn^VViDt_Jvm2qMXb&?X><5m*
zPa)fODY(%%3O@>KQg0kZeaKAe&)fr0%tGHOh2f$?V_4sX+D<szd;A7A7@CE<{+r{2
zem_P$crqq~JS4rx@u$>>I~@tMQr>bjnMNf*xkk&e-SY`bLgV1j7B_`bxe%*?9NQR+
ztq&jH{s4P%vwZI1CF@ZQq@T8jySVb(oK)jL!sHy1d$b@s%LOf<J_P}-qQ>DVEOxl!
zb5q1}O$)MHLPU9yC|o~t?E_j|Zb1%CV+4T2;cg&iR&oJ)_@^al^VBxz;Yb1l_7wvp
z@lLhzumzl?wqu%es&OPuXSK5DGUIxMBiU}khs~R|B!PoP1;3{xsOT3T?h!!E<;KG!
zDH13Eh9?uTM|apW>Y0HSCG06EH#-csFnAt0|Bpc|d32<&pe$%~IQGLG9ukj_)C+2@
zEKZ)R5V@$#GY-kF4<`7Uz=+GAhLbif+CjQmG0lIn#gn`akU9*TnxbN9gY{g|^q!eN
z1Fa>SbDVBfz;r{7#@fwD*Sb%=d}ve&>k5t2thg}c?wv(1cwI#Di#LGyMO7;*=`Cu+
zXu2xT6OqY$QJyCw$#`z_iL+$PT&4K8I-Mt`eg@Efy?;ybX*uCLIcmr5MuF#u`E^5g
zl;fJYJ<abdph~>XosH`j-@e-73{jJM7ZQ0LuvsJRm2UKifpsf?#JV~OIA&U%1U$8?
zo6DD3*7Ufq8Q3q*kkVGjd1Cg={1rvHSBXuVw@_T)Tt6pCkIA6Cx~}8R{hPNJci$iW
zE<S%DBloVB#9mP4Ci&!ll*gmem?<UI_{x1=HSZPr;1d42R211zBS|gEep$!J^7+?n
z9Ft(bWVEmn{s)9-T9w(X0mKS;+Qpn-bKE8r#i!rM+I8&qvFY@|Gl`p|PE+TFK@!@f
zL7)Iyd;94NNc(4MKP>cC=f$3}cljN$aPNT&%Rb%R@9zD*|Ha+751$`?{>s06ykl#(
z*XxbYZ+6m2UtOhNOgs-Zyml8~`>qm?w~ynUW7R6W*m*lPezc+rZ}ZIW*}yIDU3K%;
zjJkc;58|C^xHtCKx4*F;SPoWt(F3pp_getg4O}CzzV`sE4{u%)TTR$nndTb-_d_PP
zlR~usuGFn~25=Rxg+g${8xh=|H`V~S-<?n$fIDhth9$YHdHzZw@W)JWn!pYL){NT?
z0Njhd78U>w`InhR!RzDTYNe*=>ra{FXt0><0OaVg!WaXPRZ34DL=No($Z=@b<{3l|
z&kZ2&xRrd_&-wanR?&3#?<Hs@JPa*iXm9rbbohg?vT*=(3ZcDeQRvYL09wgTc-dpn
zF^U?6Lhn85shcgg0CY?qM7ts-Xe*otp^3IBO3+VIAwr53jgUKm7-q4v+29fA5JTBU
znHq%F91=()8Z@sX+FOBm>SRb;*(`~kelhO7mGwxHKOQpK$(%J@DIA+5j2E$$A=x!5
zViV1<A~sR}%4MhBviRTtw(JK*RXWOMM?Ws~2xG^GN3lU;E&Ae48OT_RK25elqu5ks
zhZ45sdLuw=r(}a-`*BbRwv!vpW7`1s<jgU7ELn4FMnwJ&KUrh>vVQI6<Q19ody>KS
zITPNP*gU7%pU;IS=fbV!dl)?YtAW9vxP)~()d7hzxD^}*r#hlh1g8pcMR2M^B1Ld2
z3sVU9%@zd@%?XWyQ@OVyIF*Gef{&V8SYmnFO5Bt0K@l#k4wIum!BIhGS{GYPKA(z%
zS{g)<NvpKfJ^-G2oN5m!8y?q6DEFG+C^M1ZQg<Z9qarwJo+r2#JKU3}=74aBlSy!@
zy`UmE%E`n{k<jNfWy4%}+!YzdTFC|jm$g*VFB)EN=M$n~pwpem{Uei}EEL&H&!x{B
zBXJuNMXx21cQ2w_F$j_>Lm@r14(oX`D_2Axwd0)t(5E`)j;j$tKP_EWD7y39lZ5#~
zI%w2QlZ~pPnM<FRFLi8ZN&1iHXEl^@G^M65nfU3VO*#?PBJjqFkm0BnkGc56san>G
z4uYSKw-Q~C$i>GBBXeTY(^S;6@m91lyjL*s9e__;vf(4>rFQ^)TF=Y|7l41-ihynu
zr#a4kG5)9XsAsg7nk3i%S;7y&hw7wSE`Pp1LAJWc<xl6lyD$cHvt<9Tu3oHeXfBvO
zmI$Eifg%Ck?#W8PxdP_QKWeJnpDW;aa*)dS<qAmokK4@{6QDx~IA%al52Pf7oCR@j
zE8aH=vCuC&2oK*-5nDL=K#D=|HB-U41*Y)=xe87bk*aD~u7IkfkgFhZ!!jWGL6W*c
zu7Xn)jVc;sD@X;U_)$>RP;(VbuJjldmsGGiKc^!6*0fZ&H>#^l4F_|0NKFV0XEQQ&
z21G-Oh;w-Cff}Z%$(7^|p<y15q50Z$(rpnMjz_WSb_ugJoJB~gMD<@ZP^GGT4aW*J
z*{<c~8rHA47NUGrRhc5D`#;YiUu&{+<Jlt4M+8}@%odTV<4K9B{}MFw^I{R#uZ#(@
z*|Ex0aavRnerLkvD&D-(7i49fYJI7Un-{f>m_cP&^iz1->iSY0|Jv`GQyHbRxxG-z
z`u32?!eZBNg_D1a_J!9XN$}mJlIGswdJ__BZF%!e`2S1P_CiqyO|>MTzR!f(et9U(
zm-l2sX)f!&Xa4|N?d>q01DXMN+NIA?3xY5d1z`F|-oYeaHKJZd7=dq>xm|1!Q?{$r
zzi*n)5&3!!=YxZ_s??;oinciIJ9)fFs1acF&h(b>>1@ureNcp=jiiIQW6-`MT+*zR
zxWjsbu&#gF=azz-$l?(CfdaokH0J|Wy=UjgZB#K!SJr_SrukwR#ic;VZl5R(LAW?K
z7-t}r{}^&L%z7vFZ_;{^SlhA#pcZ)A-JNZ7+C~t^r{Bl|iHDcQmRolk*G=p+%^Qsj
zXIlwKL^_P!Pv4UOgM_$SNxOHKPG&qj1pYrQ|65klt_VI}-@M%Li)@hH-rt>n4gdb@
zI_PI_v2(Uu#Z$ftIh*wywpjAFVE;%EahBfj8$NLZcNX%{yNcL+=8L<(1faL{YTq(g
zthnrLzhr|z_14$o<%7UEyM2G8c*jxTE<^t8IJe^OC-$^pG2cGn@#H&;2N%gaiF^L_
z4d48`$iAOnPX772{(bT3K5(Z=%G?}sz|%0|*>IZ7=WNQI-c_0`uEi4}PtuLLdmBdS
z<UW`<-vZwsKZ^fQY~S|1C(a+iD4c~$@le)Zgv<ViaJhM<m%lRGz4Yed=H<f%KIB|P
zeA53KjL*f*=wZc~*z7RPSg>F`%z`uD7yoe=sG)U%8u+iA#k0By4cNg`<Lj6wr7-*t
zwyW#Meyjf2x35wM$2|^?02f=f@UG(X^lAIZCMw=VvRH(Ef0-=L#Dh9?#5V1fzGRo6
zPkb0S?rj>qi2M0k{IE?V<HJO<eWWA^{IEySc7cy}E8UI7hnu60@lY$Vu^F{~EsZN{
z$tL8{6N_0IO*5zW>*m&Nn1&1TNc%SU*XhlY)x(?xA|0`rGrlbD`T3n4`#5J09>VE&
zRD2Xqo5M%-xv|Z__kR0LnF2Ru^PRXw?D04E?rq8NSF6ozl}yr>ZafK7M)b8}Js?I5
z`yvbUMGh#@_5Mta$Bqb$EM}Hij*bm0a--r4-{SBQ0%F9l*l}{sZdfLs{~&ghY>cA@
zNR(Jo?m=0OhZeu#=P-@Jm|Gh`IzW^dve%_pD#fS#Ih?PoECe+`qQ$c3Y<C1i-g!=D
zqV!rF?cLZER&Bg!5q5p?$J%%j(V;|-@-Ud?cxdq(-e>GCWz5<L(gC8xP{;Ajp9B*x
zp58WxTm5aLi4-HM`@?$9AJHS@(SlvFM;oK6ixfAi#3u@VB2?VC7Kcj<(n+$4%e!s;
z^V!UzxDulx$Mx@Lma^NF&7!IJ&vrYO92O<E^KG^o?b4QoW+i8=MDhtpIVvbMpEUk?
zNGnnO24vm$#~2H%-KdqgzCcf%ItQmt4IEqS#Hn$gv=iq~_W7HtuW*?4)-G$~>#TiG
z!rJ)SGsJF5d&}CYHEMc0u-0v>?SS=m_Ktfy-Et$0TMm8x2HEqb;d|51O|0~ipMW7&
z8g9DSlQhT!K9AxjTEU*P>HHNR-Xe;Nw)u6$pJ_$=F<a9rc*~;u8AGGeNknZzkQ|;9
z6>>y&l&hlILoS2mky7iAd(bh3>kX9*k|$2fP<Y{_8jc4}zCGz@Pm&q{N|X+uOb9YT
zLLU&MfpQBQxgQ{Mh^COsQ8`1Zif0e043<ag+w(|$(nJ!;D=<k4zkrm<N?wpUj$=Vm
zXs)dsN}=^DNDRxV3NaFo$~EcSDc9}KSxhg2V}7|valC?DMbqLMMOjdoP=nHTTpm?v
zg>S4Crj1HH%Jhj1AcvXSq;h1*O{Pkl-ek&}OoNseYCFGa9oj$=%cUSm5~o6xkvs#D
za`Uii(n9s9tc{-DuFcgko!dm6%)|{K5dGXh71eJ0DFb?QskAVybXv>Z`9;&Vks0-*
zBwbM;l|`yd<r;V^?xcpE^@X`7Qt5A?UCAIZtfj0F!(Yn^L6XHR*F>_sLS&gN$wjb^
zB*;~~N3nY8t$>y#<TCow1m*z?h0;9CIHFQ%P>nwM0pu{#pHz-4AIVhd>I;=JVlI@)
zpsnrt<~_I4yyu)nF;4>BqNod_kto*k0E*&Q2|!_z)d|x^D#n3gILi_yhE+uX)$;Eu
zeQHQYtzc@J)7&76GnVQLCT8gbRm3ZyfQpEv6ijhkm<Cg_c9NU6jBBck`h^A3rTglD
z$YUmSh#qbxf+!*;2g&3-sf!!yBDuJME`^KX@;EMr>tVTAHZP;eQBYxYOR0rvJ*Cvg
zHkDEksorg%Xu!uL=@_7jR<Frt!`#E!Fsd~R6-HmPYGL#}@FwE42}7xmvnSp}5II9B
z1<^B<Qqh~vS*TeOJt-<BNs?mSMO`!%6>w?%6a|nb&J$_^^o6UIByhD_6w}xBSJt8Y
zzJ)7dxfr5IVqSnSl4k)*XjTPi9XmAp4RqlEZ}a<7e-&>ztU0E(d#3gb5MM3lOgz~}
z^5aR#kF}ECW<6*U+bjhPvFgE{vfz7KL)$o*9>(^a*m0rTz(#_lE&Q^%wuMY@v`mGk
zMIJi&Lt~{24h)X319FkMS8t<m{QYh?&jRnqD&cILuaf-#Wuv>~uDG#(X#1OFXmpi%
zck2*KW4MFLZ;M!nW>w(I1FF^`)=wnbhglhdvJ<d0U}7I)?Tmq)n6fr?JBjxVxc2cK
z^&#1ZSbtJ@P;>b)v!If*G}Z-Geh6q#y^feQur+)3_Qke-?+!7jnFFk~kLZTwl6P1a
zyQ9m+^{0#FSXhKd;oSexV?W+&@Qxsr>eeJpsahN!6|yENOogLdo|>eouSAU!Rf<mI
zET#I=C{1lCX`Dz_H5!N87l=ktDkBrdSxR-OQJVS^bXZ%0YGtbJGcy?~NfB%Z)^SIM
z9b9#F`0%)7)X!B@avP0UeRbV2RDHb#_2Ytjm+WEnl;6UlXje_+qckq1H6a)YM5`hi
zAEi?TO@Py`d?o^EQ#%u&bSa#Pa1g3yBC^IMGXY1tdYK5MO|eXX(ydaa0_svG<1=-y
zktvy47s!-Qt*c{FsP?5X0ak~)_yo;}^a~#F+a$wjGM}?4cY676guVY9NztfOH2fl?
zuB-xU=zdh}u@d_u#&>`<%qC-f4z$QHf0NzM51!1}9e=NDk2PtBbx;+N`~*>Vz$1GS
zb6!GIfP3(JPY1jxsZ{xKccoMp!!}T&rY36IhBX-mv2TM{Tdp(T1_v8rNA<OtZNPVX
z%k8+bVhx<J*Ko>%Ec%x@LqEU$N!;9V7ZZJG#5m5^NsQ}vjpPI_Z$ke&`JtWblhFNS
znR$^|eXrhi{`Z@|xwoeS!L@AUKf>{*f|q$0#oyxgzQ3vy2&89U6OE!h-z0^pZ~&U_
zHPJNauh&HcX{Fc6qVAg4MFVe;*Gbg47hWfvqU~K5N~O3l&Z6$N*G1E$v0f`v?dckm
zp=#RNuN~{Sn6!fnI9;Hh3pz-kiwrz7&=jcAJj38{I(PJ5RqyU23|frv(Drq<g?zi3
zw~W?)GM1LhnvlI$=N9rE)$2Ag?kjj(>2@`}jeONA-&V#Gb-%5+#h!qTaEJA{jeIAr
zZ8AcceZ{4$zetHy;jFLXtp=^RDvG6~l}f+N+F|CEfV5ou+ZffOy#f4iPJw3vyc{e8
z&N^V6f^G|@9)B=KC!L6}i^`U8Dd#4P(Sb)P%n|D87;4X^8n`e=2c5w%OW1HM!z`?H
zQo|gYo_@9VY^r$<b98!p=sGY$r#_5fHX8)708?8ZVn<G_CT?<0*aV3=Qs7Vt2H+DA
za8v*q>*@Ul#2n{s{|57B3=QXQJVCXH(8x0Ag<=n=T1*wtaI_vCAi<%Y0qMp>WgxEg
zgKODE`~vN?bPoDN_3prRLex_~cS6*gaJ!%ysIYKwwG~=x<IAaK9#|V+WG29Em`7P#
zwIGdd1lBTbxe>4C7jKgxiC6PWRvWIlL7G>)mZyGnv_;tj{f%}h!uk_&Xj)x<hm5Av
zg>R^+x?k0Wo~-SqU1Vhc(z$$hbVt14E?<6=`@kO;^1(y$ii9AywiX2Nv>!Q20~71T
zQ94(N^B<Q%^<miP0iYIm+O=KVcG@}+UFVN#E&(37CZr@yQ_?nl@iHL53D`t73FPY!
zwjs7a8fy#u(v_yQ<e9x^G&h0$c>jKPAGU+5;NfZ5{OA1n*|*EV)~m41ir<H=l3nTU
zezMA(trpIh*-jYp;6FQhF8F5OhsuX*D~AWJH`^^zOBN|rqhB%m!wu*DI<%QHW85C`
z-Lm@yd)f<L-Ld6}@wyw>p0i|={Q`>T%PS{LAKxudx8o)Et61N5%dEY0A>}(*4bI-y
zE@y!qGQM;@C-iyz$lvIhN^e_t8n46JBCxA(Yd>U-(6>YXm3hG<A)58A=d#7*x3gHY
zSn2hlKa8JBpKo>S^EWD4*UV$w9pAAX29qYAt(VLT3*9ruUSkL40`(Ply)Z$(V%MVO
zTK*<^fO;v(cFA5ban+o!9@y1S_IPb}TF?JJZkNBF?8?~ZtTy(&cgDj?kNeB`fok8I
zuuZoz-Tfl7hm?ym=2gcF-(xWo8wnH3O}<p@mi*^xJN`5NS!ag{8?9%WJCvu(u-b_p
zh<?gh{REPlU5_AXJB!6Rm{_{rq@GY<$hWb0j-9xb>O=fz{PST+i_lPsz3rb*OwfuJ
z?fHD*`zw{6#>-V>w@v6ei|*TQfxLZAU%e5(`g*lsxi4SRUNqMKaJ$N1v#hU>_)V|5
zzlOC@)!*bQ+N3{4cc_74#MXJqO)}=S-$&_L^)1e7=!+Gbz<`CQPz^n=WF(Z*QCTg(
z4oiFEZY})rD=J<GB*vE|BAav}V(iZnhzLD>F$CL3q_~EdKue)U{ssi($#W9Fj)>BS
z0I{kGn}=&Y@~3VvhoHFysQfLFC~&4QI^Q95bVX9*Gyrk>Gk0;rxd%6Sj)G!zlOY07
zHtfc>xnKnOBE*fBe%xinp>+cN+2Pj+J$zjF@R@*a%_J0?f*iYZ#@xT;CZ`UkN`@a&
zFEfXw2*-0&iaF$CNGa5g<pnTDDV_D@S%6C0t-(BW6A$F@gA>BQtUy5?9d8CZFb)7y
zj(1^Gwo}*`-YG<n%ty9j4(wgt@omC2hY7GjxA_(F^*FrbHWC*za7JtaxtLGT-w*M)
z>=Sb^lnhD-Q>tUZpA{R+z+Jjwfat3P9Lw@(%<Nn)jj%{iLq4@Gfnx{EcNG*V1GNI0
z<Ejnx;xvO*^WIvc>;|qbp&E&T8R5!^AJt8z6p~i-B|T2p&4jBgkcyy&t5675MQC>_
zidAtZI~eULcV-cuR=FSjy|@2s#w``QQ6*S8US=m<2N<7wEjP{O&Ct5a5iSWy4RWk2
zkath#N>bBqY>7$9&Wk9Exix(u#DvXEgt`_Opq<n)y)-#@wt0G~!;OpJEX6dmWjKy*
zDJdGD6ln?2Op0a>ym4-(-w^xCeFVE}LOrpZ8n-fxX+nLm+)9Hi8f@xgete2hpf^Fk
zlqp`Aq29VI>S;DAz~0giml6|c27x<6GqaWfxm=iBEr?wCB_<iWTH5RqN(>aUTIlJW
z&05X4)xIpZj*1Wh!P*e?c^0q4zHNd%QJ9lq-$qAZ@{n(%$Y-lBX2^FgjC|&`1lT)(
zUn!-2<p)|+?m+a)wRt7KIuO5f%cU}wb+lP_$X_Xnb--gQGgV+lux>E~i^_ol!MY~E
zs|{WWd>3~tWbs-Cc~=|qG?J%4?}DIbUf2xuUJ;-t$D9CqPv5H~Ny+Zt#-K;(LB!Iu
zbS1rdctA|GEoAKKfywCbynOolvRpX4lE8y&-1sS@RHAc@8$a3bk->AV4^OttY6i~D
zg$-4h2ofN=K~43;fxFf>cx*`+kCFv9*x9ewk&{v328joc=OfGr(Jvs&j7z}+8Tz=r
zQg)<7s*fS1(b1H_)Ype8Z84a^b6Y^^Cn`q?=-i?;fNc3#+gNY0b5+ZVltj2SA_CQO
zmJ#850mc*8vjup*V~WcswNh)}4YWqL&}CX16cH>YqkMwi2H*)~GSxaT!iM0P5}N^p
zP2O05441nC*c{Iy3aH!}XpH2TQe$@*o3)0UWqP|WKyUGQrJ%QaeKw2NaJ0F6j~8jx
z3{#?VkB8LcB)ANbA3BJfb1eVBNUTFGrNVyT86q`vF4NZo>M1#MP*3@Qhkz9BN_9Qp
z{2~Y2W%~Mw=N$wjN>P3q9LMxXJ0gs#N18T(s1nqpKBbPXsA)6m5oZ*Iv=W9#oKfTm
zz6^v%eGpEn<rECR3{G2;LP{<D!nH)+A&_b57dVn|C@D}H8p1>k&@#mkCn`lCB?Lpz
zlG8MfQqU9r_7t$nw|~Mqs|SZcz4~t;v5oJT?%pa`b99ROH|VGHZ??$D{~Og$kjwo)
zm_79luu^OOMH_!@KPs2Nw|xGBo-J4DN@D)Sw4~LcdDb^oNrQn}`5zd|^$ad@{lhf!
zRm!8@n+(}2;I;pD;C{H*12(wncbm3lt++q7mr>uhRE?)7h15z@nyWN#Xw^wUw2FgQ
zM{{$gxrhS{|D7|=TIfF6X;w#@UD-h)idzmkj>*oNu^1Il5Qu3auy%wQ;aC5QQq)La
zQNqUqnCWR;L?JMVj0H`NwKYY|>{DtRgZ=hQbZ4fyNfB+lLrx*+ZlZrs$u1mFTAKjf
zuG3EdF;g5X!Zf2H13_sF^k6KPVGJBOK37lEBJ>ocV}hQhP~e=Y+UZ5iQ~i0p)R|Ez
zOyL>euYn^o7-mIy$RzC(fSBRQdnRttLt_TaWgl5Pg~<%WBr_6ZhRM7D(>NWUm_z9e
zWg5!7W^Pbkq^G}Su+OoyRR{7p3VAwOVg|Wez(`Ze7eABC#mg*|2`W){4Z31^v$-<d
zUG!Sj-c?e-yFkPs>A9GJ|5Aj#M-3DK{uhHnEoqEO0=yXbdTNYP2L1~c0PTB~6!b5k
z&1XuGX0X2&FnJTzZv@m|4f=>V#;C;o)c|*DCQpX@D`xahI`!vQG))kSxMtul3IRV5
zqu+&r$0rO?3H-v~oTn$eWY90b@GgTAh5iD)B9rZ2nSsB&aL}C<S0KRBfB=L=DhaT}
zEgv3&S?a@oI@w1NU<o?@v(J04h}z1b$syqH8Jzi~VJaEm;lpFZ{E!TP5A*zA6C@P$
z9%}p9fXEDdzkpz`cQVW6<A!fEI^-J|J~i4S1Kx+P*dL}JDd>GP(ifv5Gw@eMIR1SZ
zL%@H9Pui)?QHlNv9~?vPDz3n>m25sn!M_5Xe(&69|E&PKkFQb+xW5_LJz<YZ<ljt?
z51>f@4fFTUI->(`K=+CM>>M4)`DG#BmyiX#IX)+7a)*#(0lv<piwtrOPG22z6$)|=
zTz(__%Q}b$1sM71mkR_Ypa*bJ9~ji}@<wfBs0SG8U#(3F^#FA5XCogLP{189F`W;w
zXkNn#mDq=PT-QTqEkpe~>0h@}Da=EpjC1noZf3Bri-7&8hq*Q=;pNz&68E)%qtE%;
z3>oxm&^$9&HO+8(FQD9Z5_G@g!B@{@j`bZkPV%cfWC*>3ad(z*l##xJV+QGMYBS(J
z3OJGDk9QG}|1j{(wAm=Z|A4^H`HB@8@*hCDEsnfWxPJi7S#~kk4E;?Z=!awRgY7o@
z1F__UiDDLZgS!>V+?CAQ;BE!}Z2JvZ%SrELQsmm872GuCHRILx!gZXZ32cE~TL^yI
z;FZ{K@$xP4{X;V3w;=LqmxV%pi&pW(z{m{!&jP$kJUlDl{)v9P2{kUIa4ny>YccvF
zh))B0VSV9GusfhrBmBfaJTJX>Z$ho-{4Y|}UfQZ2erE^a&fhItSN7#MsqJ)dvd#Y=
zd*qDi!vV_?c-pm`U3a2L5QfkGqfx<+%X~R8JITpr%<k;maEPKIDj>8b*<ZhcQE8!?
zdP}*<cxD2x??ZKUb#*h&)5H4yL0u*7<neiU@!S39uYuD_J_E~F-r_-BHXUoQ`P68|
zUNm<{p5rPNCx1BUbxF%HU1~eMpZ+v()hhP7u{ZMkwHJR~X;oa=efs+S?%bbv%3pZd
zg}>6Pto~=$?ahXrdE(g1Rj9n43LO>BydZgcP~?ppjeZz=n{PDOS?dnNVRqT!2A9{)
z=}K1Z3Z3V~8^)ejt4MdSh~~9h=?!DoS4<fiNaV(eA51s*u$(Xco6l{>PXEEPAG4p?
z=gNC^qu3AB?q&@;z1z))^5Wnsc9pli(qy;9!&Wr;=I}gpoL;JW?~dXyGtwiCnD3eQ
z(s3H!(!2gtuJT8x*l19it*IB-WA9}(&AzqkWM9JW2N&^ld&TVH`tsl3?{|xz&yF?P
z49M1Gq3rAQlJwI~paBUS4Q)WDY0??Z!@y%3+5WnHmHo^<vqXw!S~)ZQ0J779>~OHr
zu3DI@c1~*_*KA`JW{ic9wq{}0Iytrc;9`2SF>hRuv^^WMXXgZmpOFWdYh&ivC~0>c
zOp)o1)?=siZT8I`S+gpsH~2|Cn<=isAW<i!bQcPWTx|dZ!wZ-QcOp4=Or;SN1XXV6
zhd&ZJ!ZY9)%zzwrw68Jd%i8<$)N43~jCn$1vfSrk#+o}dIPpy|TReiauPG+S@g)>1
zK(ydI@e19)Crc4NM9dPU2OmtT=}IG5VX)pHA3b?acmvCZ(sdKl)C|nuW^lBp8RV%g
zD9PtwIl`kxJDQ`JJGHbef$qV~y@0H>g~j*+A46$!gPa6tvgSaeEd_Xf!wZHGA3_Fh
zw3!eKxT7MNZ70IhoUB5KAU~Z<2pl*|EZnM*(QcN4rz2Ry#*m{5XtbMH<R)H?u+ktA
zJRjj|HNjIs)-Z+qD3KonHrkI8Oh1{Si@EP6kgFA*5lrZ4Pb+)|f|m<x!3<Q%jkdJL
z!|ploL#*_9$7dkXa^xM)*v|>}cs}r0Gx4ImeBz0e_Cm@uP0ib;x8!&4M~kTU=*G%-
z=QqpEl{*2OFTm>FQ#u_$hu2uAlzM;?yV)%fD@i%K?NTJBo0oh;l`B)q#}zg-H=+D}
z9=<>}u7T&mU6WFFuCd3G+KIze1o^pvkv+HzD4R9=d}M9eVClmq9$obcnfQ)PVH=4j
zFF;A%0>Q;xN>j*gvCMBCDs<+*g`dp!paB4FfX(|AqlC6{2PQC6TY!2hckoj&j7HkZ
zpRkN!ywEZ~_{4hRx$6g3D^(3l+RZ%-%@E48%ma`E7~KsD+aq75s_8&UJfTj^od8N^
zh|8Fk=#<RgU@#lk&6LP5bONYe%u-Un!E|O?V^SLY&FZpJ$+TnL<nLH(HHB=uy7>Y;
z7ykJS3LCa@eK_|BO`G7Jbw$lj=d&?VFf-47P~fo5-AZt@sR{Oka)%CqCo~0{TYD9F
zce42^m4Y`4nm)L%caVZN`<viqWz}P%;{n{PZ0(iM&Ruf`cJ5d~K^vP(<wUz7%>}r9
z$qNozFF+>2iZe)5QUZ7TSg}DnijWQ!>%<e~E0!pUN_+)XMXa+yl++rKVx88Zgg*E}
zmL%%_1ItxO2(%iYh_R_piL}6#ilNy~NwDkGynv}ZZSl)feRU<PPpwO2gz)MFf|YeG
zl9G&jtB;h9%sPS6LRxRU>6=pG2V1U%U<x)1cqOB>YbXplWb&-qGN51qlT7tGh!R0^
zWo0Q(h}aeHpk)tcK-{!53WE(iW%c9m>t(n7_`R_vo4?GdAjiWG>r+#J+57-IY8A*L
z%YFk=e#IsZ^*H80@K$ZCP#OVd!?dwNNko{0Y1@O6K!#xDwg)AmFdwE(0z#sF-T}DZ
zqtwP<8++q!KLMLYUmF~KhmBL&=<A#pRH3z}0qgLAY3bbrtb@OzcxVXAn03#~?5ky|
zk?OKZ<r<zQOkMD$pIq@SgVZ~7U>(&m8m%6i*5Sa3304n;mFxb?U|m$b?Y=KW5Mp{g
zt`WOr3!Y-@s_Iqz-I^M3rMEFOQ`a@f9d#Hqy_*{Jv^ImL)~^$0F+#p`<xUBZ+X|8G
za0TY+-O59=GB~G7HtJiEt2&$Vs_>BRSW>4TGYVKxTFw3wgZ9{qH^dr^>+H`#5Uuo4
z#m$9nM{mf;?71}*ZfT@ymR$CHp)F-iQ-+H!%a8YRWw>5ySZEe=!3)+h`)W0qaJ_(K
z?%{ZijMM1M)ky9vhDK_{Uy_$JXH3LKU`>+i!O4(~&x>pq85*uJAJ_3gUK6V^x+ch<
zs*%z1>IkrH!$u?K@rf0WB%7FdKoeW*Ey#FH>fx0x?KEB!KCkkl942NHjM<^(BV#tL
zA=ziskVb3@oZ~4u!C~Sx1#;L?b4f<*wT?yTVdmDjz4E!09^p5Ed&L6n&?1##^J^%=
z3Z=5oFT%L-<pWiP-sY8YdaGeTW{npO)EnI9-!-^Qtlp4<wQLhnhHO?tRk3-L8n77_
zS-TdhiPj9DRlYeX!!_sNI#mGZVei|5CRlR-R@v^V%*mnx)ov#N2(GU>M+>e625jFN
zGyz+P#^T8peozasw93(l1>l-UUm2UY1xTQk9DkBw3(t=2Q0!>nLVl=e?OGGE5b9Hu
zoUW2Fi)snAw9e6pML?((=QI<y2;f$7R7^%~d3I|1vPZ+V1WNvr$<4%VDH)<CXSSFL
z?o<u#O1v=1nUKW@vXa-1Wp<JZWLg6T*<#SXp%!+DWVEu@O9_CGdV@oTQPqU8_$@V*
z3M+Yc?Nk#(g_OLduX4x;u4*E9{2euZD}Y~a-^;{r1@I%@>6Zaq*95TeB{hO;ARQJ;
zF%!o%&@?(a6e#2Oj_^BGh+P;LN--0&cc2lXAJ&vP`Kb5&LUF7AgO9FIjhVoG)?wth
zX40H|3dRj<4*ahUD|#ifHS#|?dMJYaJ*EYC+Rd43bD}U5hG+j#5rg;<ylma^Qg5x>
zFPR8IQv<Oic=`7WtfH-#-R(NZj5EkYJkLWW1YUv%-CFutO}eV9YSNNV<B{`9UivL;
z%57wG7Er}PT3M1<vS`*-u8r;Xt~L9UOEAiQr06N%=KBv1Y4bNc_{Y-Lr_%Ph(rIf}
zc{PzGe4+G=Ml@!g+?Q_sK5pUE-Jh@PAK`F}%btj-C6<bb$m-=^DX@Z#vMZ9v-)qQ5
zE>b-svXd}zR=V8W+N8P|Rk+0HJrRmlmB30YXe9rRzB_8xoS1K<x3JJ7Muc<Wp{dwV
z-*m<1{MnZ2W*L_o>86p&x(M4NG0MRQ1=r}~8~bL5ur>SMrtQa8!@-8JjD?3o;>Dtb
zT0V``MV-@=xVhZ9o+_!W=}g&`UYcVl5&N0MjQGsEzm3V6vf4}yReXP$d^8)VL)BdP
zqa>b+fXTTgUZ_o`l;2+l<t0k3NE?-2tc!|S-)hq>W+zeFxD05Zi%Z!_l+Z@TCDBY9
znYvIVZDcxPMYWL`(vayQgPe5N)5fMI!jNcW6G?5RJ*y_Th_tz+tf3-`X)|)HaU@Bg
z%{5-B(|{yggTYfoNW*xU)0oycNhH<D>olj{TWufciwqCxG#LEX4EYA@^XFNq5US#{
zW%5@LH%{uuZ#Ue^Ed}ydD<?S<fR~O%)#QS}oZ&7EHQpg<y%>;YI=&BybHxS{S7b*R
zToDgpa76-y!3~osAnqtr!tm0hW<v4~VGM?M$Xg)1<46SrToVR){h|D(4+|`wdZ2(s
z^aBBYc#eW09tSuW;&Da;A%2WuAV|BPP?@y?GOI(%gJ;4Mn7+M~k1k_xzP9-(%U)mD
z<oM#^)fd>ig}3X-1YcQv`2w_9uepHz1p!$ivgR4{1bEuDmRoPzAQXVLe-vL6KPG9k
zW$L1CZMCg0h}g#t3I+-|Y5)BICyN@THDua@5!mNDHy;k5AFKIlx6*T!tGmaC=@b6>
zeTfqF%CbiCPDGKwQUP*{(JVus&=3*##9HDKR1jiDV4g^Nva$v331vN00VOTbP#vk=
zH#I_+xP0B!HOQ4Vg896YipyxE`4$+`5+In3NW-`U#5fCw<KD0`mT?<OC&24aCS7-}
z2!_;_TmcEpLZJ*=p<lx(re!$g3MiN&m9Z8~iH?=QR9>30(7{zTre-5ZOhdT|B{gW$
z4j9xM<5jhEWE4HP)r@znveINvKHtLam*rw=J_^Z8)Z$X|IK4OJut*xvvoZRQ1{my5
z1_mNet$MowXYP$<uL4s8##fQq8XCf`LJPteNObhsv)>QNzUlOy!hMe)5<cthL*nOs
z{ayJ(f})YaEg)5L0fVv=BV@X+DHz1-fy5k{qNLn7bP2kIB?9ZQje)Qx8kvP{^4*~a
zcp$Mw%tl7=BBU>57f6C}7g!0tRN8h_6J%M^3hImHM-RC~60-(^K-~!nfjKE$c-9o!
zU|J*l7d_c{d<t?;^afGWRLpy{1L<o&agLj3V?%ab$4>efLbEWoy4L)~Q+(1pPAgCO
zq9#Bq>#Q&EH$T3B^{C`b1p%ki(-R2EsRI-xWf0&h@dF^QK$0DtHgknFMja!Z1yGTr
z2J8I{D;x!^>o14DK0YDhw<m<PV1e!QX7>AO|Fyk;L}_X6stFe=tt1!ejUDW)SFd8<
zyTUt~Gt(p)WOFyV`9X2|kBXDB6~!Hvnqazkj^X(a2$!85uAKq)5qR3QT-$cyxDs9G
zk78_dd4ybM=#ysBgwAyLi<SX}xZ_)Fk%a#Gk!2vZaY<FidC5wMwYRtGqAFR2&1aXh
z*B>)+nf0@~?~Cy-@854zW@o#|=I<i^+<)``y5+ZjPp`+!vXV4jvCvzkanGHuc_c5H
zIBckXy?z&?#7i^Iyl8hZ>9hZ_`Rw&;6S%YXgeQmgSpUZ7!8)@89uY2ge8E$~^+P{n
zJWRxnG)8i;a4X<3{iVP0)f~uC6Mr*}gf&cg#?x2M#9PeP^8X?u0oW0LBMlgdm}MgM
zqs?Jhqr6OnVvw6hUZ{-bPJ(##Z1oD0z4_wF-<u$_7yy#bQ3+(gTs2qHFBC}Rg?!x>
z!!9tkQ5nTXqgWRYe&#Rzz!$s2{j5??@UxHx(s8mlJP%|a70GtFhXGJ}lJ5hf&z!|B
z;Z`p<O}rH>3ATGz$~+W8eiw5twrSKUkgMeE0oGUmHy^r4JzxB@{LNS5;CRb;8?CeR
z(Hg|HMyn`%#G=?a$}~&@h17UQEwL*1<0COfImDfp@~ATW59Go!-Gu;cK$5>701{%v
zlv`H<t0&{ZkDhocuP$N~KubLFbU?G5RUBo4dFf^w%7p?wZlK1=8HhyLPY^@hm;5i?
z)#ZF>T@=2Ue}*5E|HWhu^#bgep&BBWPwaq^8o=L^VzE;TwR5u@dZXvXAjp{evW*4L
zR{#+|^C+8xuAy>?S~iA@c%d%-7&f_L=i-kh($j9Dak}{|66K7=TJfnAg9k75z5N>d
z86>$)oqPEM#c(>;#W<O?@{1QK=YR7c;c3D4JieOz{Pp%Fy#LN**rnWFg~>>!0pWYW
z^-GVx=%9BBTKUQpz{_Lum8ZhFN#jsmt`f~SO}*W<^C&+&5SWvc!}e~emb)TNxp(U4
zN6LbchKa0t!~sg(#(m(gcrid{nubZ&aoHQ0L{~u^9d1>U+vBAVOi^*Ed#Qe^-;LmF
zzT9q5;PzuE+^hWZ{5KtNy(n?mhikW(a0OSL@-kkh6Ru*U%2kxBXE0?K42~z4Spzlf
zUZmU$+e8$Izf<_6pmGau{ws~QNjazh4rQ9T8n<s=W@07)F4a5r^Ho)3k~auc`6L^O
zcq;$li8vj}X^+{l#e!HrdJ*@~i%daQJ5DlJdW(1(eccA*Eb}+f)3tRGZUg42ze-%_
z^5z)svRHw<S%+A5u>l*Xib<sBIvKJ<unSXtFB+b<Do(<(5xH|YwRUpA_A6RT5%qYN
zUEytBS)Ft57Q|Ld=ia`~ZJIT7ZqKX<L*;kLmWwURL*@9)x<bn_62L0%G$b<Bl_%^_
zi;<F~^?)ZR<uVGx4?Kfq?I|=C2YG%Gcu>9tGIhDI)LP5R>SDpG%eT*4T`Wq*S9PW-
z%~;rsUrffFKXTb7pH(>O_q%GTtrR%z$a-UJF32abvaI2Afu5wC(enOJZJ}(FfKzf>
zZ$i+~Xe@%9O9EHDnIO<yQ6$xOp2%$1R8cw`!8B8XD-2avu=ZCZPxyjfKC4YSf#Uxp
zis6HwUFI9eB#v7W$4GMAZI=OYuD+5;EL*b7dH#%GCE&%Uk!eP7FO%J2@0!u{lr|(u
zV*Vl3g9aCa)!dP2Ol}7Ad?WD~T@5Ch6YFS<yTNStG&Zv{z*L<#?9)gtPL-0X$8--H
zj};Z6ek+%(Csdd^s$37~s;C~iin_=Viw)qjs+v|$*V@WxD9q|H(o%*;SS-sA)=0^0
zMQS&X-8mY6O(|o{BH$o=B(=3VAuz`?!6FXX6alqPJ~lCEijd?|^>9RzL{uGWf09HI
z6THf4<xVkWrmDR#Nl8L2ymdy0<s?*_s3nM`<b@RJM&E+9yim1#%?}!pw4_w4=v)|9
zl2Vn-_$$#W8M!ky`7ta<P-ji&WH8N^N~5!XOPVI*s6!GY<GfOp=<E+Gd8KsSg%a^Z
z67oi1Fzh2W6TFktv1x;+nP*3}h|cJ+MRru*((NHNEBQldxeZ2#h5Vt|1-VPrsK@TS
z$x>ON()rk(H(AyF`V%tz8Lo;q>)I3>+ilhJNxLS+#@T<wYG-?BhDY{YwLOrQihkps
z$C#hK0gqvvFDL?23jv|uV$sbl1Vk~zQeavLh~$o>L)$_?6mzr=T!9bqEJ#wcl{ZB3
zK%&qV#1O>~5{0%>g(y1D@#-!rY1hH!_;WIdgFXyhjSgK}cSvcy^l+wI3AN$@m)61R
z!J(W*Y1j>JsV%{$FY~4v<jMlSifA|00DRXbMWePgfhb%og|TOV7zS7dQ_lbqjA$9&
z*fT&p6Z{zt^RqgL<ce}o1of;AV!9zPA)cZ^G@Yk=<>r-i?;6s5`SuB9M;o4yp--S3
z7f4;&cd==|7J}_Eqq`&}6>U!n*?f(TNNl$VF+GyRXwRHL6tCzEX*$aQF}&j=(R7vp
zqWFWSFrH-qIQm^i`q9-ZvDg2UKtBpT;X=pxv7Fb%c_00Zv^gr;#d{yyycf-G>Et}F
zbsuzT_CpC!vBcn0tX^9^PZ-g*KPDBO?FY0|hP5uVo#lt!9|b+uPL=5z5)5>%AhcPI
z?XS)(LsG|8+JER)z)8ntjzzHF8g*W9sS==K@Db7wm4ZcQhY`sRrADWn9WWgOayJuL
z3>WCEYd#&{lyx7_o@B%aJ?USP2EzgTCJ{eK1gP`(O*B7AbEVe-PS#JF7Tg*CCN;lE
zYA}-qYSLs9hn7j4%05^nmuS}x=X2g7FubDXkX}(6uh$>1sCnyk^%XT-V(YW|Mt!@)
zhRAC}(>tR;Mnj&r>$4M=layfM$8HWbz;--G^|#derMF1iD5$@s)@P+Hz;<`;bz0EX
zn~X|SdZY!p^faTLvSsH*i>k^il9nyLzQk0wEJ@Q;dLq+qnpWm%Iv2jxcc7T2X@x%>
zT;Ggur(}(`ORd0bN5|WJRf}obIC^8Sy7Sad#3PpNWAW&gs9Jp^wj+R*YC~xgk3F5v
z5KrW<(J>+Z#v)eyQ-}DBL_Amz#`<aeW*D^XE%)$Q{<UM=3*`-T&M{EsU5({G@q;<k
zrHBEp4|v+`TU&Rc$`W4ZAK6?K9>rkBy)tfhOlC6k(yPVRbiyr7W0LdhPj!PyP(&2R
zBWvx400LcA-&fUD)j;s=XuNtDi$P)x-z{Q4-}U?in=ff3s7~L6yux1D^$orGHgfwI
zp_oS=4v5Di4WYZ}nTAurDGA2H(J?Z<oN?a->X105;T#j+AB~l?ZZf&Q>;EP{{~2LD
zc@I%1PD4+mM9{f8A&e*TJ_p@kO}ra-?=fBfHieXJ4x%6+t}D;{2Vb`NwnI1_hJC(l
zDF!_zLZ1*(G++Chx7PMnQEv?y_2=!yU=SfV>Wpaum%dX$+KOXN1TmE}+Kiz0gK$Q|
z)<zS3iy@kn8-5T!rESKcp=%ma&ODeFkI@`TL>ka`yT))~(^ddX(4cpp&^u0B8&^;<
z9ub0a@i?W+?P%%_B0mbX79g>f+1yAFx?u|{SU|7nqNQ&61f#my3E?DgqBPtnC3=58
zZx@=MkCf91r*r1PeQouQp9h$=j<kz$O9th+f93r8{rXohy~l<ZaVk?4x5%8tuuqKS
znZ?EwHitpioL%_>u59EBSDw2}_}vBbVc#99T|Ul16Kp0v^Rk<b5p2rIQ4OlyhYg#h
zg1W=&4!*rX@YlhPj<7oe@Va?c@VB`mm%|7BiTwTCHNRmK&PSfUqMrVPdiAh?*H}9Y
zm$et6Avl*ULvU8mGTV(7+H8%2*l(fT_8liow9N2C1j3lYreJf@#TBN3HC<e=Z*NxY
z3dv2<^CI7;o<Q1=M}bU!L_}Q4vz0j6<GS_&E@HOMnpLP|K6Tw~T$hLgF8{<I<v|Zf
ztbZq2ZFIC}tpAtA`tQ70?nZ61P((_oHG(6lTamC<@vEf1fLX>gCZX$&2jf+FBxvHj
z7ZaYaaEa6b#WTVwUWAzNWe38;=;QX#s?LKMn(7yDqU`u!Owq9VUdDs&GdWa$#N8Vv
zrt%?C#>Ojymc-^X0V45NsgfK0=|Z_VG>j_dQtzC=oHu;H{MixrW&SlO=MhJmD|g>%
zl8_~JAr=zsXg}fa9-}TW<3&Nte2UfGGB^IhpFC71Zk+}3A8@l(Jq3`qGqt=lN-aM=
zQwuW6a*K76+%jq(z3PJ1AjL$7rI?qCrs&Y1sz@}}`QbTNxbCEKG=eK<#DQ5yx8bi>
zmUYI1+}n<1M21=cFl0l=c>QX(TnxJ^R%RcuVpo%CEx=PV;ywQ#=2UNI%33u^Sz6~y
z%Ci4l${M$n<HmVQ9G16Mm(SCo;Z>2mW@p3Lg*70R&uWX{x>TL6G0Xf$jltb{X4w^P
z6SIxy*3)5g%fD214h^M>8ReZDnKQz*W|5<rINMasgLAb5QooKj+M3e-AQzNN$=fN@
z-E1$633kkJaXg4i@MnkdMbiF;%{pnrHY{z}j8ZpwpC0O-z(X_TrAiMG$t~Gr^cOU2
z??pndRKwPB^!dMho{mq5(ITS<WJl{%*^yM$4tr-+4o|jRpOsZ*a)PSdag1Th$W<3e
zgTm||QkWt7!pkM-;H7$}v^XCfKu!<m!yl3>T=7O_Ed<~|MMR1%%u}CcFNz_)m2h*S
zw(7X!%sz#`)D#ZM$NYGClYRBHSAk4j^`sk++J-)TV>6#h1@cpiOqP;UCc;`#J|lt!
zy%`m+l!p18`^eS{WY-+jBLe%BBmzev#R9CWJ8;Xj^#)obn6V{js<^#C;(E$K-ScaY
z(K3@1pn3gKaTMc~{1|c0yxOC3-ZPC!?O{et=`&8)G9)79wDveNrvuLI^H*_THya2^
z3!J^E4w2$WYt0Fyx-8q(hiMnJs*F{4u=d6EhXdA7Hd?7XV))vx+57(^1ehhzG4UCx
z&7PL~ED?k^m5~jN_?C=^(#p5*6}35<t1ojL4O{9EijSFwoV=b`XdXZ$eBUkDkaf6H
zvg&(AO0q5MoBWyd9gd$6c2P$aKPjYw5|d@d)v#YB{_XOS$xb@BAqKO6A;nL68HOEt
zYQq@qXg#3a2%$s?LoOi{)?WT)7V6xGbLhL|U9KS;^J+`fpuBJE;bPt>7JPtgs*Xlw
z&Af*I!Du&?{ry~m?>FfLHp{3)=cdx0Qh%YoCNB`FHN&gb#jBkguO;!y=BNNyZw6Pd
z3s*lkTyvVnlozlXO+z_@Dpe_{sH0ZKUtt<&hdJOx6kTdIjo|$-&2z(43ojlPaCV!9
z?tYw3%{7R*y?iQzH>V4d`l5H0@AKcevcd7nV2PF22Q)|%5e1)_{7(t*%~=xrBySmN
zFEn?^-&M%nCJxyCEYSYwuC2RB!AR_4!~Kw4pVa53=fkqk9H^~2&eeQ7sTzF|2=j{0
z(xp7gRs3~Y6<!eA;32_?@4jgCCD+ol)iMgLmcWpJ$_fZ>-Y|C8Idf}voLu<E>>%X|
zRHPsDnJP4C+mmE=tn|-ESi3}f$BH(ud6dSx#LkZvJCXm=uuCjGR&4J^K9(c?F2P~_
zCyX$@vc?ss5p`iAl|TLiwY;*augU&au%AxqMwE-A1%L7Cmbs^sx?yfw>ow3}{=B`d
z_UIqcS*>!l=eyDiR<=*qk%3X1?OOqNO1T>$_jau4%}l*z^l2rp&Hf)uw^FEvWs?ke
z+QnL3SK>MpUH2c+($e-31Rd^G$5FiFotLc89<XC+YZ_GM*WV;X0cqNkf{PbdVaVCp
z=VPCfbja=X+4ajczvgE}ueiCN^ncNxKgOh6tWpQwa^~kOPI;WpEq6gzQy{O5<^+-g
zIs=dVMeyr;YUPwNAO&a3kZ&1y&{&|HZ!BE%L5~D|@l`xsawwNL=PREEPZKXGi2J<E
zI0QT+JbQw)@F&?sJ#4<}4EztwqC+qn7q9{GN8+n9nj|ezryEoYk7_v*_6qo8799uN
z!Gi}9d$P<EI2_j1!1{AYfyH6*iFaqhXv_!MGK~%g9~d~iBT3(>^gJB+%oO+*a-c^5
z9vVjZf@RD6aM+O{?2XWZ^l(^$6c3;HqLk=mT(osDZ3g{J)i0^`8KbMiQA0xy|9p&(
zQNEEuB3lyoJY$zxc7&7yLy0~P>des1SCog3hr=eOdU2l?basUJE)4k&k}P~W9JVlo
z9j6hz9R&MwrP^-=WKOw=;J_tT_eMPS*?hTxlowuHkTgr7-D+Q~hDFX->*ZY?V`;$4
zDJx3Co~R>f=nm%6j%CY#0`dq+4s30!hqmQNQ&y+6!JyzREgWMPZfRqYMPdqECD6`H
zFb7WJNVrC=uU>0s`TI)CDq*K_n&mZ18b)6H%DrJ1z0|hiRLn#~cCUhbWU#^dObo}>
z>mQm*=e8yaI~gfLVUvnN8w|-2klc%MEPSsc6q>Fm?J{M?CE!zkIQZ|^>)(sJd*Xx{
z124?d7hv2uXW2sjB7Ti8F5&Xqc+?kFn6oS-3mUS_cE>W|M$Sz9aNryrSuAjftB3`6
zkj(z2$r2D~u8RCv;aP6!qVH@7GrCOpj#;~3j9SU(vG7OFr^UbEr^UZKExvOHi}<8F
zaL=+NOHaLpwD^iR^dccyFHqL~kaCKwd%5F|{C#=sEGu3Q<BJ9k>;<Ay6mLI1Rbxe^
z3%s=}-ao(F$MjsMlriPS9w{5Rd!zoU=SExGquiD;WB1nqt-ZgqZOa;}FUM)V<gK>9
zwz^AT&umK~>i((1Wif}c9e8Aozk`TPD>00A#=_KoTIqmwQ*5i;(tvEL#5JoDmjv?X
z_h~Eyq?ycinYfK*(w!~1JA~<SE}ymx<7U!sr=QLf7%&<>0f*?*_@W#r4l%mit4G>S
zKCe17?b6TE4c*<jkjY4TLv5TA-BgD6rRCRQg`z1y8?17rd#3)X=Xbn+jJVl>x{KnE
zP{e<#<A-K?WyG`{vYt0-%7=Bm&CegYzv=g<p8JisG!X}ScbdIH)E#7Rn&T8-Ig?cm
zqq3qZx}yc;>$lMrUXwL&;%%rym%5%m^+sg7@a_wkFgSH=R7R`*j^D`FwLf2Wzfrne
z?6eE3raWzUUQ4xNf|2zqSqK-otZE+9Wb`a-HX!f!6ND(#wG+#rom2~LyM|(0Mxwhl
z2;!vGw#^zAYKo~w>Kci79TTlo*JJFn*}Z--;NqCIUX<7LtXwlR1S>t3XXHWmhrCuX
za$R6VrWQcY;)`W4kTSSGHrws4qMNkG#%m8wURz4h3?cKTgRMr_yLigpAWkFop*^+k
zA3U{|bFGG`<KdBO#a(AVFbEn>+;vFk<ll~1UEVteJ-4H-pcsu0Yq!qSz+IT`p>x)6
zJWjpFY5-iEjIXD%-5SCPxr-OOPr<2+xr>iEsu0_yfrsl+IPYn@luxR!U8Osa=LPA8
zoipUNOV|Gw>}W{4$HcEh`g{_s#tMvbd|x7Pd0u<3=j?X!Bfk*qk+0iBd2?I+YOEf2
zbKU5eT{k+!mp|V-J~m!9I*pf&+8V<ZvVYLwv=#U!KMw=f<t#>;d(~%Eu_LWMW97L=
zD%xW^F{aouUni!@NfU2Pjnp2YBie+R8dCYF7ZW-mmJY&SS|*_(lkL}WCS)S~)l$<C
zqnVT<Lw7aBMC-E1&}Ex<GbRoLLpq4SXc>WN670X_!;zX9l4^9FmeSnReF#cgumqpn
znCV56;3*0PBc2+7+ytOe(lj8<1O%ft8XRtd(_Eq&loum5n6mi{^gl(hGO_9h$pU!V
zrITAzgD?<<$A3hCaCvMyR(UA4irVpIC(^aWLO`-GQ-8e))M@Kw2J1^^19Q%IlHI^<
zJc-+-Vh~eI6XmJ-eKL9ykBbN#wUcfoXcJU*CMlEan8qP6euWb2EFIPBra(!((w*)C
z5pEMdSHRzzk}#wasNAAdK~g4Nark77pWy=bbUvJJhjUSD=mu5xj;k+G)W5Q{zoZaE
zwO@%^=@5*W0wI$cJXpkgQGq1DoN2HyFl&x*4)j!8HZ)vov!lS`MJxXl+xCv+d8X(L
z563?8kfK0nMc&{*r<1{9R#zQF{k(sdeKxlnnW(p3PnXWCxY>IA8o0>wGId%^od-<K
z|FI9QqJrEzy<F-&2WHKU$-;Q_ecv;GM*90>inK0ugR6#yfj#K1i&-%$!qrS)li|Di
zeRlkrF^r5~AL0WIdv0y%gaNq^c-p;NU3a2L5Iy^k<V)aD6Eks6lFcN}&g{JOL2Z=@
z0)aLk^XnH{P+DlHYH?o-N$9%X>grq7MMIvZ4{s0bfnBA;^zr*_^vnD4ZAy&vGqhOr
zLPI<DlGG2^R=f)rY?R;Vzx!YA=-usfG9sE5C((jzy+sn~=5y?Yzcn%$56NGof6MyC
zEE}cehpUIT`zFh#$5`^f#wKw`*_A)vF{%x6AWF8Bd4n^@rvq}f3Bf{2nrt|08q&mH
zq?w%|alRD4Y4+B8q2zr-6G|3=w@c|@?3A`3zSeZ^Y_g$2Oq0Rb#tgP!=;wQsEX!f-
z{B;R`<VbBl(hoBis11#>>tbj+>~yzPakrVqfzQY)N{GLWgTjUlu%YR*&zK$z>DjEa
zT{4eWe!3~lxDYeioxh^Y-_mQkGD7-Zj3w=XXWnOiHe-)%+U~DHnHAO=%f33veCKUb
zmGSx_3R8B50V60#r)0ZhDi*8?1yvivDh*X5^#!Y7#Xb0g50=ioHlSe^>cmUd9e3&j
z`VrFwqsyFMHflrDgLQz43}Q-O2$vH0Ae|2?Gz2rOqFCTzwt%Ci)S9~pqA=5*W#%E0
z()Bj`Ss478Wdf<qr{~P7U9rl4)wCNw$mS>iYie;pbNsZTY&}@zT9;crir&xMpn3D@
zc<#&04pL&h?jlBA77^~T^r_jOMMyo+Gz*hlP`JE0vuMUg9mkKa$@xG6tBb%K7MCEZ
zmq*i!W&D^6$>rh9Jn?X>akLAU{{!HUT-_cMy7U(waQfPWPd^IZ9{Oc;J^uIC``7LB
zcVaH0gxX8G@^%5UuZy3>@1=cdkd@+aOp^J{S%qcsMQ=UwPk!BL%ZU>|WTmlc_;z`;
z!8vVc2j2+aUhol`!NI1;;>7VvBsvw$5*5s9(#3vERWwjy>ZIBl9M%r^fF%4(KQlXI
ziRZJ_$*(;YCC;?CFhlymDxi>H%v9Xq(dcdIKVGooK{R%yliF^$I;V}6&zV_hgxcgp
zX4MEa2C98hUZ2BBb0o+{hHNeAe7EM`-6K*(ZwwM+wPn_IK0LoF!CW+0mlihTjM{K`
zQBxyzI$I4``;pca|K!&t-VKx&572}1g86(w*>`gLcYexH7`ITLb#jpV=@!MKap?lt
zOi^sQJSJ!K6@>$1q=;7cpHRFaoOg#K)eR$O)Vh<m_C?B6RtIG})Hj+i^CpS74rR*7
zcm3vL_AxP6*`Hf+PST%oOn>(~)=LJ|U=!w&<0jyleFnH#hiBQ7nQF^O8ZOzHyxJ}`
zG(Fq8nD5+K**rQc*LnD~0LgXo=$@kiyYihJ>kmGW19Dzt#ObC2)?tS<c|~Dacr5#X
zRT4xY4i&10Zg$d{YsYJ5XdLiz%|fxW@$A6<lyh|Os34AV#J?3{lyBv)c%KsG(?>j3
zt!;pSn<)fnH#NB{zvJ;>^yH8|)&=<^jk3NIiUJ)_6u3f4JG&mxVV;E61Fil;)*Y4Z
z4KNImd)9^$K{b=>OZ<Wx%<}munt}+H6c6Pbq3)xlzw&8<f?VU*TQ@s-toV31I72z?
z?-p2{zN)ny7Teg(ZeYF_OkOi9C0Kw1>ufv7a8h)%xQAT_Dn^(>$~kR~BjDcAG1AFP
z9vL4B`3A&I3TfELV1$&;k{B`i&21+=1tG&3phxuwN$zXcYv8k7TlSI98fuR!24vgr
z)IesodN8P^H6sQ^VRsWz7I_KWerFR=hQZ(%zy_ZT=>vfTXoX2&%wITZ=+<)?5JVTw
z2`>|L;^rzp_R-@*AQRb0stbABQZ=!SByn;S9l6A23qbQj78NTb7QFc(L);({Va*5`
z+8YuLP{+%lK9Ep|I$i>4X-G(5jV6P;#Revz;~~TPilqkYc*x*7)Um4Y@ZyPUs!%dn
z5Ro)1BH35bWC7d>eooNhM1&TfEVVWrwvZ)LZ5692@v#4>;NQ;(d}iGFV!vpJ^PWUK
z+PpYKdQmD+YTmRF-aHov6Y8z4DM_f?&<<Edpqd&~u>G-(Tv$i_=n4rNyRbyls#D~E
zWDw-A_Ty@)gP*7xN7y7e$n!fVxv_1Q9PEy<mUq>r$%XE;u~9DFbGt~UO~s)a*AXZr
zn~DrIyhgb4r3!APID1$>z-wmfkO#@P{5By{fDh}3MA(3j9eM0Q&%&LUJi{%}MKmP!
zrmX^##?Z=bPq%T<$00Zm@*wC?m;>vGmbbaAX?~(!s4YDFLhe>U=_2-!d-D3CY7;{b
zDG{<AtJ-AFK|RlESi-jp#~=_UZ;n;}T020E>f(Y_g{G#!c6mwEN>B@+6b*WgV^@u6
z`yek~e9X_96@~Gr<z-3!#fE&1Bt!l$y?lF626IZPu5$2&zU~X5v7p+3>Uea4Eve}J
z-nd8rek17s%1{Z?3;GpG?8FCsAv8{W*qe2UgJMud77qo&o%7m<^+v~}y;znwWd|yN
z#ReiqdXLQnL3-aV2g_yDDPQk&N@Wn>-xc7`(f$vGZ3gCPt*{>wn0{Usxn5=o=zp5`
zI|Kgu=`I_!pVYQKr=3Q-WI<DlZe#XoP4dsD@?iGTW1e;6(_lH7?$<%y1>MJ-#>k|2
z*>oO#924Z9%X*|*hwXjwAK#+w8@QYU-ywL~#a&x_qCD5WzJDaLQ4edaefnJ1cGR{r
zbHWudDo+ud5Zdwk^=}eDK>>*_;v6_u<-XS@S=q1Hlc(|5eQ1TRZ?n7K=;Ozet%p0`
z+9DF-_Lz=ozipc|_{6?32&n$R{`^0?_@SP7$POt<o-^>@Eis?`1^z4d+|u>1F=Q`?
z$DTvO9@Eo@P4O^$%(AuCl;Z7uM8bfWn2<o=-G{5;PyIji@@bj>*e3G4z_A#Y>#wY-
z`0t_Ly@q6hvjCm50NN{m-;b6{Otje0HpOJ)`iSC%FhSRD)15KfZE^Bv>;dyW*lbV(
zYzCr~Xst00*=Ns~B1N<dM3FgkvA0l2*m+09MLtzT$?Jgez+M#bxfE|YZy}x$3|o2(
zht-{@1X62lBj2GBXVzM;`}fJ$-4*sRah*^TrI?|hO+SeIyr1>E#o_@%prSgie_=;|
z$4<70_wLw>JC7(<MjO%%HKyzZi1G7o(Es)O``^v<%{H8XU@O>CH}I_&@n5N2<~;a|
z7kWSVdr~kTt`&_x;C{Q0BRu-&>EVw3VoL(Y-XMnrZB3hTU$an)(WXfv^J#&7dNo5D
zezn#F(}?)I{DOfRaA^7#QLX)o=mfKGu<rokS`3zz6ga>R1B6wbBYwEv0uHe&8X^V@
z2+7a@OJxc<^;}4AbI4h=^?)FcBP|Rlk5>8}*#N@D!4D3v$MGIX5N&}#c~fpYu@@jb
z=Igb=oV~shZ<ZDw7I-z|nMdCN_S_AVmq@e)KvE>5lLs%v%3HrJ#-HrDj2v3)jg5Cm
z$eZSbtLFv5Ct72)Nc4Y3<P#HE-u7LnmX0c=d-$W2Zs;qedsJIg9@YBpX{nY@t?x!^
zeK%6;yRlmBUWiIMKK@k8=d0yAw0COw2JV+yzJRLb+bNAL`Y=#iA4XWMJ)Z-$_2D^E
ztKVxhSIRfR8>M{HwWpX*ZGD(3_TP-`l=8iWN}G4%E~0@_!anj>N(otu)K*QXD<$OP
zY_)`bv{6g=N9}0Sc-m~0#!+Jw1Y4zq&%u}4Li0it`|yRR9lID)ym8eMQlwVH%=)(y
zLX$5?{!z>5D`#ZCca$>r339MvMvOj{GTtMicIaf@2VUSSX54I$Vn#nyY*m7&+Oj%u
zzZ6FRu|lPkQLGRtW~9zqEo0;<_9OcmtBnA!nH@Z87$<n6*s9aDr<{?fW{l>_8Mjzz
z=h2+G-a>68pAqD$ZLQvXS8*TUV~y1=YcodIQ_J`(vmaFnqs2x6idTj#(S1}pQ)NB;
zrI;u!uGZv^kl<S_rPws6l#&h1sp}}FB$1;u*jaCWh?YttL5GiAKh=)wI$|WLwsr0d
z@DfFyQa!tDY)4%`QtHs|5K-k3q5C7kAywQ^cc<7}s-8dVang6>DRJsy7hi|}*7a99
zLEp-V#VLz~SkuJrMw>()Zg>;kIIW~Q{!2Ss;(j5DtylKV(7zTscBSsQR3Et%4$Wd{
zPd*@EhXMA3z=J_FUA{s4>cayW#IENqF?Bb%J4)VMfg4i19p9(g^9{H0Pwhpz<F++p
z-~F_2vk^BZp1I;vOUD8(xPTS17}G8C``<Q<7}<6$t)FdiR>@vtkBvfGQBypfPrUmM
z$f9*#T>ue&?&Cm>Q!(tfzwB;Y#{bgfz$Nl`t-jW=!GwvcQay1j+Y~@CG?SwTB*!64
zByM3JXf2z^v?AIyB<;TD=ehTBph$oXhyY>R&Xh<_tJ(Rj=%>sM4D-M)Y7`R@@=fEZ
z3?7UOPj*p{AeJHS7c@qVZ1!dSU|S@K0VB!$tRy`lNPIH1F)^I8Vx&tDjft>0FM>F-
z+Mo#dtO&dtg9-AWg}C(S`z0*boPCc!uYY7`e|%CMB|jaf^AmyUD6<EXU`WrL7_M`s
zR+S{FpY^-BtCln!sIY3Go|yFy=+Fz0VnfI2IYwxXJ+;L9GhH{KeId7?y)xIq<-GhH
z_bqq_JO3uU&k?-|?*uPz!pj$PZ@??|a^Hklq#?QmG2g^`6JoyA^A^PMX2IJqe<SxM
z^*G*GcOzz=pXWBres~jWC+pBRp^leLZ$cffW!{21UF*9A_kJbp7UYM;DYfi}Ojw%O
zJag}%D7={rhDgGdPDh4{#W-CTxt3o==BXM?*RCGbpg2t3T~8AavxBYi=D%#=;LN@Y
zhzFH{>jYKjcmPSWPJm4gEOr6D%>Tm<g@YFJAz)|*tU)^>!yhGZh}}46;5B)Qjv;#-
z^2*#yg_uu1`vw?ujK9DzuV2qUfxCJ^zYuXsAyqz1sR3cKC>)<-fC5aXmSNydGPpwG
z8jyfI1*_J2cSCpXGDqz|aW#>{FC3!{UVsAYG4Px3LqhWjSgpk;`;!p?D6SAW?(#z7
zYFyr7K=>hISl|irS9ruXjf9}UZ7y-T;Se5qMs|HKa6UniO;+dD!D1GXd9ZZDH6(aj
zdyEGJF~=QQMH>tj&>?awo&u(6!~qfGl@CBfi!1%K1ciLYn>hxxWQR*R!W16U1;y+N
zOyD3RKmog!hs2-pTq!gvcwiBz;&>!DsyM0xjw+7hK%w#-N?MDjR26->Hau>8G6ED=
zV~s6#SN?UGU<-hCo_J($3{Yre4=tJ)U~Kl9*yI@+Ta4d1K|Ckk3^u&IO;I?+2`h1i
z9Txl`IJ`HlOz8%<ive9{%%RV^OOS{ip*XBj1?F1_S_;xTB_J`oX_SBk<$!(!3p&9L
zcHyRF1Zc03GA~d?jRi*)2aZ8er>y298WGT9)!WA_C{&&~U2BOZfkDF!l?1MtjK-kH
zVH~{O6KNvo8i(%x<HZqE2uY>4?);U9lS7luav6|acz#8T3E9y;%>)k$+`bEe@hB|b
z!yj0@p%07q2<(qXVEchhA?!1v!{UvA?Kc9p-xyfF7XpeWwt~U}`oMr!UH(%9$kSZG
z0tOTqa0gpUc=B#oK)5-(L;7uCzzA5v*Jut4$am=i18!gec>*e6K;UvXg?7q}>|g=m
zhQ8U&&Y*}qGc_zCPdyEesKX-i<k7&0a0C5J`e#@~KFa}%2)Hbg-P{g}$Wt&wBLert
z;+^%dh!g?K2)J7-o97r9(uaoxTu{rMDgcEPxrSjO;}lS^km67SFyvLY2^T}cExBY9
z`ocnrjJ>dskaNJ<47k9MJjE?6q{t`>3n@~@!a|Ciu+WeM9Fk{sg@qJJRDmH0cnF4E
zmB{8fg@%ON9g)pc3JRH|B8A0F&Uk@h#!KC>m~pmHU`%m>0TwekxCV>~xNRkW$_)}T
zO^*o+nx2V+1nmOvH%(C4ketta!Wv+o7ZVnBf7}leHFJ&+2KI0`E?(bdze5{%Y|-xZ
z0lPbygN5mFx&heaX342VXz=6Xh~W6~K_ceRW-M<A<Gd2Qa2>dD#sR;3C^gT)!d<#x
z`%m^9-DH^_-1xn{?V*qX(`p`oi}T1{gN*TKTixyDg?tTOUtY-9;DzFad?Uqt4PNb5
z#MkJ()P;miUW{8r*zCoeg^Z0}vRKI2=%t56jPd-YTFPc`cPpf9_Uf||$|i3jE2M1p
zvZX@GW^b@5qHOvel0wdgFCr=AZ20zyB2ESA_+whoMCv(6*e)Lf))jZmbj2MdU2#Y0
zh>!2eQc9?z`O(!kKf2PZHw!77y<M<~Qb}8&tG=8iW^Lx)js*LBtSkrBS`PL++hLZk
znars)m2sOm?TI74?*Gf4WVpsXdtraJMJ{?a$i@!EiwE|vZ%B!DiV*|Exwcz&EYmR#
z&#}>E#^w{TJQ;k??!6*<xV!2;G={q_>V3{SUTB+tqJZKa4Qx>~!tN{(MIbzU)auXA
zvx<ZfdD^4&5!Z7YwKeWCjc3s|zC*7W(n5vb-Ee|=u5s?I>$&SvckNsbkPC^?ff!ZR
zNQtcfoueG@y*x*KZ%#ee0r2MhQpIwY2vlh0TuQLN9-snzaWQzB_`d=iUkaW{>0b>0
zbqcGs;@eo3u7|}>&b9((z7^0~heqo%0Lxip=hKe%(e)x2V;PXo%bpCk$iL`G%ZW%B
zkc*z}x}l9XTe=fZSF}UM3e#ibRQ%j>eIFB<2Ymc($Aw@nBs=#&4=uis?_ir>H(_T?
zQ2tE29ftrG31p~rox8>kmKk+ycjX8C@(9~!Epr$noVR|bXq*?nUIU@WuL9!dxtKU9
zkFz`%m*`~_#LfP|z8b$PTBW)qMF`?SE@oLjt>Xm#7besgl3*i#ZLweTqddlveNv9T
zH*h;|;4v*>(t~YiEJ(052K<G;OVNw)+rc(-C68gpi6Y0z^(%rr8!XR2Wn087mUMGi
z#lsDrlQ}LQ7f5{Eh#Pi?L4CO10$k`MJZK9ybb^SW74HBs!Xu{&H&0n*jyy!&FV@jc
z;|UF7c+s~lErq63DKteX<hg+|rLcscEL4{j!{vsW13Zsb{9OjQjvqSL4h9lFZB$0M
zV#DYKmrj%$WFNvzeQmU78T6#SOA(B#2$I299r5Gen)l*WysyP@tOD=hCU?Y1DDfhr
zM75R5^>~qW#mJS@;#EeAbA~F{<5kulVtcZbCO>5TQEsYoJ$}gO!NN6tkqRW*qyoQ<
z|74AHXxxkOoz0dfVxTVa9{#Xr>rfPWyvh~jmYT>|iZ@R@y@HgjrZS3D`l4Kmscg9w
z`6Q*(n8~Pd#!%&o%w!bN+FX+~UA2@pZ?dJU%3$T{yvdd>J~1Sv$h(XpwG39S&AV(V
z%go2rROdsslvNn4T#*kMMUMMIH8uGuTf(Z0Rj$fUS)XKPJZoz5OGcBk)+$%!msH(1
zQe7_a&2L%XR2i*Yq2IE#KfRW|wjz*Yk$oGQ8;xjZM<cB%#oK!^(^5GqW*QT`WIFIy
z@jgRQZ&*_7^veb(?Uq#JtXJGh%R)6<QCT<)gX@)rwk8`oD@t3r9&K5c3O&kM`gN_9
zUezIGsmHoHoIx*_AF^J?UBX<YY}c+ac|TuPQ}llA-o7s1(bosH(a((G%Ls<`2P@}B
z*ku&|Na;{9_$?#&S4xM<QE3^)s5V9QfUyjJTpRz~FsqE=Rmw<}L!dH>`UBs3gOf6z
znUt}rMh#^Q?^4F9?8%o={H#rJzK>nT@morb%Fb^Y1!OQ!i*_!Y>#}_;nYKumYAX)a
z?y|PR(CSx^nmzauw-~xq6{+f4mob=93{@SrG6v}WyNGGIvSrlkN%ao5l*x3ZjM|0k
zy3IBToe62Le1Ogw%{*Tr5Bsgk2p93u+4Kl)`gew+p5=1Ao(t`^u2quHb*4*7u>~C<
zd2^QYhXvq|(g11I8x5SVA@U5T1Kfg6!(}e-K!+C51IT%$Bh|7T`Y4wv)P+>&(BH^u
z)Rn4~`)>SY3iY5pB*JS>pPp2B&UA<`)99^kTT^RcsHna9s9RU-FqGEUD#sX7jxp^0
zkTU0(>Ud_<UgGZz+;HomUB*OqosA}zy$|$!!*|K9jS8%6>B)dyT5@WZQ_DUYp<l*^
zK)Vq~-PoL;kyHh|eEVubH-~PCMS{JoLh~9Oi5h*$lAgp|%3PUQj?2vDK%0vX0dnSY
zYAckTQ@Ko=#d&S6g|F$GeB8Z^Zdnx~zkZG5eae~p@6x%_eGE%CSh2Unig$XlC*<Jy
z&SPWfdbkPnOe$G9_|>`YaAzFQb?lBjYyz;Z4^Y2t{_k4Q!l3Xgu~)$Xhpg{K*g0*-
z*vAj48GG^O-jI@X$9V;I#_{FQgF@*40j6Y(mb72=3wYYiT5EIKI24`zNAVN;BP67y
z18EmXo9!2kFc;#*uSjwe{{2d_oj`&?0xPpK8DfmjInveD)sX;AM|XcFckG(_^vC_Y
z{~Q1MdxRXi%{(9^CwFY%Aa5uxEh~d(L<^i{u)JgZ6A!uYQV@5@U#2kR@Bcz)@=a?(
zn{D0swg7!PhqDbBItM1Suj%^s!TA?|-}v5F<l!XABcC!7XKQ~Z|DDS$9^UkC2LJqi
z{+7<}ksIX%oUBYMgysCegu*Ce5_OKs$zX*^o^S9Y;H5-bSL5cr<rV-Nj+4>%SiXVG
zy1LJnK&WVE^}IC~_a~TafDAj;vWHK`C2lk05@Tjs!s%yA;~KYhYMIoS<mUS^Db0_^
z6jsJHX63@T#yvGY$=!a*a^oTcoUM(E+~myu3=zk;$dIo<#zjVHkr)@5K^mJEVc2+W
zl+MSrh}Y+k$hgXY;K+PmuJa_%K0zg;%)AQ0%zVTqI3mVtvBxbfm>-u}S%C3L>CFj_
z&5!<l7Jot}|9S-Tp5B+U()cpz4__D%<1ypAKg{Cj6J$sk8P7BSKBIVLJOz59{BOW`
zcX~Il!ewGyC*YQh|C!&c1~W)jpJ4++A@ma`r2(Z{$Vp=6jAPavo6p(!Jn4qei<giw
zZzNv3VGNRZ1uRY>7}pnXyzPfMZU)b`>JgNClFk>WYM6CSC=QwA!*|yw52w7=Bg5YQ
zk>M4;(J>`O7m`kE)}5os?iqJlDPn(!Q}(J?U_$voSy$o$khrIbv{GImV-#mgc-etI
z9LDlC1_e(I7R%kVk3!MnSrQ93F97cCHo)O#-b*O*p30m-$Z{lW3JvDDEF<*o*3}?5
zq3EPI+Lvrh>i=JkUZKxc+!LfWQX0mP*DNuP1MbVkap+l*UA)P<s<JYB=4Fw<<)VR>
z=ogZg#pR-*mT0~2xm0wB6ehM*^+sY^%lfiFo~#j`{63+&-eVmpvi6We@Ut4HT6BUc
zI(<U$_RQ#Dsd=LM+D-NKIWo%AB2IY86nAvM0dM#Da90$4jput@Xc1@74tcc|67}jW
z#5X_MpcAcYK?M{TI*#14NcNsZ^7cZgl7RyMgFpn_n?+#fs|qZ#?MOsjWZ5#L6QC5Y
zp(P8Bx8Aa2ik6VXY0P(*3V_#PIR02Dd?Jd|BB>u%Sn{Jsh&Cv~l&NDN;VxmpjowBB
z!{2d-#|YKLEC^s-ok$#}X<`7AWUGl;i~6sLDMb0!#1NdVK@(GEm}vCp&HAZhq=X*E
zijtg`1P~@`b<mExR0i2qCRB3jC`K@!%0#bMF6QNRUFId##K~kpIYCU=7j<0I%11~F
zP}lRYSRI8Pfda7l6!BzbDPGH^GBA*%K;^lUW@~My!0b^pHWf}*TvR-&1eNw8f6)UF
zP*w;r%hR_Ze>mkjriVE{?&+(g@uNo>+@MD3DACS3=b|0fYG?4lZYgo@nyq)F+Fq*?
z<U1Rsjc(iTTUIIaZeUTa#no|2DO>$grrFFlF{+HH5R<Kxhb{FMwv}(!!+7sw@u8s}
zuR<Ak*YZ_f*W}iz{_mR&oj6z>wA+c&BIIepVw?=0Y<Oz8w=I_3SwrS6MN4F$F*=ml
z>V2>;PLJMAOp63>-;t{LLmqsqpCtKnb7-zNw9Z9s*QC`SR_=YPas5t~mQ_^Oh<{M)
zxSeEXYd74Ey5aEVJNvCx9NQi5uiJR9OO>`c=Bwq;sD+mA__9Ahn0rg|R6G$s$6v-U
z{yG}=d14nNkE&(W4#x0O{VLF1@n?7BJMH7CgzKr#mlhRQY^HqSj2PwJPZEfjWsmqi
zd&EEBD>Vt_ru%izRh{-66%87=qHYk^QbD8XX7JLKp74m=)L19O6DuNL>kb-_y#=u&
zuHLe$$2Hv-<t%GXiw>pwvig3m`JS$MUu%5T)(}Tt)sIxI>ymPZ_aO{jalQ-3=q%b6
zH%Gsn5!~}^+_;NjY%RBwF4zzHi|?H<w-oS`E1Zi|Owj=cgHKg0_wtJMA6={Gu)2u_
z#xQu=&7Es=;>Zq$>--}y2F%BB%P_eIa+@!dF$SC%Ol*^c{Q6@^GL!9*x}}!4*s87B
zY<BdhdG)s1*JgY@IDa|IqS5#~?_`ba@@91O%fGuCjBD9;RnL>BaCM%yo8x*r^@GsM
zHffq{R@3v&`OA4;{GZm?4d2$Ow@#x~9<Aop`qJM{!trbBug77Wg_U0Mcm6jP<hlP$
zR9pJN?>xnC9>(=EKS-0^|L$aNf9v_Jr%^M`#`Wh-l83E48SlZFH%dnPAO8F*8<#gQ
zH_Ml~GO~7@1W#5YD{owlX_!VY;Xg-Kt#<dn9jw-y{7?hTD&w!BuKj;VSFMg)mwrCX
z(@k)=;Z?te=N7|TDC4WvkHb}=VQ`erH_LE!xM4cKhZ*JJQW<7rQ2egHI@sW9y1_Mf
zgF8#62OFKM8(r1iYnP;9G+!NZlnvb|z1<*ttIhIY!)xh=*V+wll={)(=0|%Bu2G*w
zuJnpu9=Or`9^ll^{eKLwQgrHm6vor+++T)=v*5&N!NGDJA8dGmuEecfh3^(o9R3H!
zhfR?KAH!r*?Ifx0BrH1NX_BlDCSs@?qPH92L5DXpdhpE8gT=wd7ip*PO%@&(fBA6o
zJ!zNX`hE%7Pn0lU9B?g;&5Oy+D)VQD>orTG4-a})k|l;?u3{Z2v(Ar>X_U>~D4)U{
zJbQBTt+F7uM%#5bjH4ht_~6uY;bL@>li|v^%)z;So~NpIN5$`=$tFLbc3B6XAhpja
zd>yVsKR@6Y$B6x$5BnXZslWXX4DW9RosSlC=mGlZm4({a+g({W?EKXo5Z1&8geA@6
zEYnSteVGTVY4}!xj1%KZa_Ohxig4kvvA^UvDgO32+n?0Q6a6b!9!nV3pUY=|pEnjO
zY3<{@@n*Fu=gd(&NbIP+<HzyAhF8@d&$;`<_WhB_K}YFe>%s1rbGIP0i=Z;D@>!10
z#mBc_uST178E4<p(E*p4cZ<P)WOVQ>zKyc$uxMpbkRNasyT+4>!-`nfU8;9l`;dGQ
zX3={%Rj%7-haa>z{}@vC_uSr{_O|yShZ<$eFt_(H2OC|_Xw1WoZ>%{R@`{zkKaH~d
zV59ptuS=FOz8CHIhS7ZG=bN;Qw)12h-~RHLGCt2RH%hvsW;wd9ac-0{K744^%1v>C
zkY+)$t5GM5UZdmF@bt%^cQme6*J%=rmpgws?r`m|dTrN8bdK|qK&K^vYTcwHl3S3R
za!?-^-b!M1k~mqF##%1@l31VSErs>DNR+}FMe(#G?HhaTog*`?ILT)K%NgC*WrK2P
zUSa>@pWZX&)7HK|?Vs}_ZGZe{C)zi~`r1#ka98=_&;8GpkCyiRl<RNkUn@~d_KZb)
z@+W7Fo>TVd#P_5wJ!v^lM0`))peGkT=<q#ji=I{b{KEIN6Xu7tzoq^?Yry=lf+N1e
zq}^TbJW%F;CXN{OmECXsp7n__f6KXz`aOHX>K-NB+xwpUg;8nY$--w^&HB|^hvCyW
zDn8=pUo?-*aX%iDeeu)CpGLv>cfJqAXRE?jwhu4G(JaiPW$2xL{_t^1u>TD1ZdCg}
zej_JlWG#;J+Uc(6=|EE&s8N81d8%j4Xsl|bfVH=IXap{3z~(1U4|}A;It$-0vY0O0
zU}Y%5ipDCOk@w@oH_+A$&5|V6!%{6wbA<PGV2{D?P4o8}o_n7seiys)IAdUvx4YvK
z64Z{S(|<R^*ICrRndA3~f;5Tblk`eSV)`gwS+Z(He;UykJ4bd`i@y?7i3!>saC-6u
zaY&Hj-`{4BWo&aAW$W1AeucZH@cL2l-@%7QPe<MM!>`w$%i+z~-JN(fr{T=s#Cfy(
z`R~vF{-QTT^m<TKIjnc~f9`+&;x<Lx+H9HEyWwOr-~IH(Y{{6xa=p7Lkw<>qdv?O-
zFKpX{ZM4H6S%#JhcV&27;+_l)YkVw(Vj>S%T+6BclaWL_-A~9Mc*<MEtJD6>gs8QX
zH%m)i2-vtEF9lTCjMow(=EM;lYH7n8Y6h(bZ)p_RfZSl!efP#z+fGCO$<lwnM0DJN
zdTjl#E0Wd~o^Vzo%Nzkcht@|^DhGBFKV0?F%tUaHHhE%crG*5JJ1LT2;b!(ELSo%)
z$)H*qaYas{^<hH9z&2z@t1f&t`}p<u6=${$GZ7v4VJ_mrMtqSmF(<xpu$ETb(sO9N
z_)g`(X5@z}ZgeW56%eee<H(puT^*N$wX3UBr{~bs)oD;UU|lW3)w+5{LMK^emR-ha
zo9U^aiw<p^4n2pq6kRF@E(JeaEk)l%_)^)j7(ax3wCOtoAsKEDCsHcbAkKJTOJAOI
zvS^)oK_|i9v;nB@yfR)C>{=cYJ41Uk?#Yoo6t?570Ejv9p3Jl~;R7*&)_=c95ZHRm
zSk-mh6Xf0PAoO$iqO}gU+C;>K-8PjmF~iL`SWC~%={dBvTTnT$^Z4Pa`5sLKuOQ^n
zYGZk&-HD|Ma8E9!XxNsC7>hacnMt-ZXUa;W^=HOF!4|b5s4m@bj<MMmeHGDhf4+&h
zusPplOvITr<NerLce}Eaw^kFdQE_XofC@@mYe<NgupS+1H`{A1Y6jgzuN@h0j`iO1
zFy+^&Ed#@)>I$J)wfZcsWx<XaNwhWlK?Z@X*(P3T%r)c9-FiP-`LSi^I2F-xPo9am
zuq7{KOw5s29IT}wujx6oejHLcupRl~svC{>c%8oOB6eqw#(j8i4~0$mO8~?i$U8kP
zegTx$lA+eur!94`y|}?@a^tOEw-;xYhoH4k0>=$DlVD+sEksDnWRDE0WtV#*r_eUJ
zn23Q*$c|QBXuj|J=glCt3)d1j?!spY7ItAKLSio5FsPO;d?BaMy6}~VfnCUsR$aK2
z9e*2q=vK+gm|YcIhnPTD1Gh$kfED1zD*C&|TeG!(l3I%26tK}A;Ccco*aBSR8LRv8
z+8|s2cC=ao<1JZdU~B)LJsK}S-yRC<|3d&o8nFA5%(R^NC&UEWiGNChz`kR~s;)EM
zaIKw&miNxxO931A-Iag}8*eBfV$QpvLoKa$OU<D5-W`nsn~xi;y3cs0)%~;aG~0f@
zWQD-W8qlGZWt~zpXv-SXC~#T1!D?CO=AJaOENWzr##_pxJrwRJu>goUZ$)NW8ZRLx
z(E4sog21+8#;UGMiAP{ozRM+W+<6-b7WUq&2#L9G%b;5N@12}N=fHYJvZkPws#hgg
zuu}D!2#HjxUT0A4DphZgQ)nyIBx1mB!H-t@Mcw?O>9_q$xDBIjJRhw6-sXp1+YTLS
zS=uf&gSN6g8U-#aH(0H!@ph<tmb_SASFaBwaJ;+xlwjfRaw<Y%4m@X2EiHIKPNDVS
zB@qLgkR7eM(EL{G*~aq3x;_%HaSz@IsIUd^Bt*=C4|J%d0e?|5X#HopMftTeB6x$7
zAFcXtB3j*Wmjog%?2}N&#GEqcU@g6}py$xKC8BcRcEt}@{qjU0{Qi<HcE?(Z=(rnK
zA};L4wTy|mG38(_-I&pHXx*4oIj|e~;i?;71V_&%FTM%bxD&UM<9*17jS6iU0!zRS
zRtnHC-q7?eUcxkurj`fN4Of}~Ek&a)MZ@)Iim^y*XtbDQyYA31J~>;v4%rt^8yx`^
z7P==PVj3UQp_cOgpk~mu-o}7NfoDB8Se^Ce9gVKTd}I3<M&nF|$31v11H(4F6hbj4
zUbDECW*jn-X#F@MgJ4Tq#H+3}-stp(VLaP?D}<#l@1+TFXFf>Lus4mTho4_l0G?d(
zqt%M|tOZN!uL%PMJIsopej?*tSNAfFUM&4JlfZFr%_UgaSCI&bb-X7A)w18k<P=&r
zE{Pb}G<|b;XHBed?RIN>Yh!EMwr$(CZM$3Bwr$%sw(a+O@BQvSdCrr`WKJfTnarFs
zNyL@;a>$5QUGwDh&_eJm2<uJ1GJgndx>R^NsNR{p6lf2?uD)JHi~3#;Au4aYFmT;)
zwpOdcR|SfjWWpp`D(xCaB#WpW7ftf}BsY<g9ob^s9JIK`stGoGDt4cSu;xY<ts~a;
zKP@tMweW6wzgE<bS+T%Y*NAni>pZ+l_D%6Lc~`fuqR!k+;zYFDDnPMNE_ujtt4t0#
zN>1lK?xQCHuE&0<ZJYZRJa4uF*KfO%79QGmp*t9`#R6uGm{!1yfpdGt(PZ0I=BUs1
zFsQ<oY4;GjP+fu{bGqu+vjfk~*BYV5w<FxcZOEGCIG?Ht>*3Mln&qHgcYK9tse>M@
zvOW8IlHSvtcjC?+$2&1#pSKO5hA=Xkni8JXXcA33-XwuKM%n`vHPh%IU05|+WB08T
zdM1Xe2{s~Br(>=tt5eBZD)kll93C-#aFG{nXe5O-E5M+9VEv2b%)Ikxj%wf07?jd}
zlhKONqagwfNb|M|u)F13fZaXcDsk9@zwKMXPvMYmS26jSdTbAWQVt&a><L4JYV~Iz
zMshp^4mUR)k^YWYNm4ULw3du=UrrhE8kq(`>JCf&rR%{a$a^!XMTEtA(w!X1@rd!u
z+Ct_~XQ$RKD0oKTeZC?q`ZZkVlj}v7FyN3kQ?jlu!jzcgBp*D;(jqTBTX1s~KLWF@
zvc5<K1N#=1&DDSCp(V97ao>TQ3?SsN89+#*kps;SMl+ImPDde#{@kW;HJx`VP6)OP
zN9w}ET<^3T4*pbY6?UnDnyPB59I%yTn0(Y0lby`B5m%{RRh>T3s0~Y~a(f9LXe0|p
z+C!W5k8R>eo09ABv$i%JB#hKndLu)SpFRC+O?NB)*@B!4zQ4Hcg^z>F7PdX)pNJv#
z#~zB8+QOsT?nDOzwq1#gjBE%T>QZd6|D*VV|5LnPBTwc;aYvcy9LzI+Q6G~-kV=C0
zM};xvLU5)4wITpT{2wa1RXeLyA=A$KRnKlZ#Jj7NHrTkWlSlHex?hxszLXdphelJ4
z_Pj(Lvkg!M*D4?*nzT(Euo4oUn<?4BK+o1#dOEcppn16-fCBN_OC0t29tP3aTHf`9
zWZ7iOz}U~Sb+Pn^ct^EarR7#My5F?+t1$oF0DRg!O5fz{fz2}Z&7<lszu2@a`T~ej
z>799!Nu}MFjBpf6g6EmP$#B@G+R`H0PUB#k%{kPn=-U{?y3FExIcU`W3*Mq+p-#!`
z?++`v(VP!6xzL{X0)0Z-XIZ@!o$TFbJW||eYUdozQhB%X9D569NHuM<Y<yi#O~^U+
zA1(l|N**2?JT(HRD$=+MZiC{WgtHk_qDe7B&+D9IIN4RW$c8!5Tx^plXm0~B?;Kwv
z^-#LBKZ$rg1J-0mJirvG`OjX3=CKD=XZ^GHTkb!G<bPmjP}tPb#{Y%NAkk|F&HzXS
zbpXDH^8b(?%5Iay`pj3VeY5<IP^}@t0=qOps)aG#*{;tDN2veO0`O3F`vX(;zdU@v
zM7pfu{{dXJlyP$Ue|3uJ_Z8|VIfPN}2ECa8uk0A+FRnVRZyQzWJ2g_Qaig7pbbbmY
zv4DO|dVK}|36J2$w<TR71zFi#WD|*@e#Y8-g?z-j`IMZA9_`_Oo`oV0Knm6WUhQ!B
z^(2?@N|A#+O0^C?2MlmiKwjjxx6jwjl{m>d4o{eB9c>EeBw+Oz%2W=&<VepWs4jJ*
z@Xst(PQvC0sZm5p3l9h}6sr`(qCa&9&wmqJfgzJo#je)J2L+EZ6_F2N=JRlCiMVIH
z8(aoX@5Q{=c9wEnASIhqtrQFF!)7#635Z@b%Z8ozxI2Pm3{VBc1_gl~idF$<(#>$7
zSKRO7BL#@zEIQQ31Q?tJbWlJAX>{Y1fZj!7tOEpjQ=xc#j7S?7b+z$hDm<N&bP+o4
z)4U&4sgG7O>8g}TKOSfeB7d#=qdAU`Nuka{9Y~dZPaO06N)yEpq*@)&*yMkW!A$RR
zebXeHi^>+DS;+qXwx%%5VogTn<A%UA6LQ57)rn23sOA=M={ky;G>}lt!6gAWLI5uQ
zUNhQ>%1K^QIv<VVw}5`Ye_FtCYMT<E2UHEvmH1z>xl~Uwin+6#Tp@BLdB$5!zvR;K
zO5-|#6u_21GYk#{)(WK-m5o6+&mwyQyb@r7;8yVhb@~9^>*E_V9+!w$qq795QawIr
z?F+g;;5GsDXml;lVXyMOZ>bQ2;kac$=S4<zmZW4}!bxVRU-F;UPap$B8@|?p@|NH<
zGi1$C)k$sZsE|!2w<GK?au%J;Lpt&u_5T9=WA)%KzasS)aLs-efX=IkQb3~sIv?&R
z=w+Pn@#k(sshbxY3-SU+^A6{JBPAk^OMv9HnGU&}fLE=w^d&3{$9RdN<Oy?y306j+
zLF3a#n{<~LzWi+e7w^(9S(HL!n6JNF1yx~x0_hUE&x9O-4tPy)Eo8<z_5V>}+B+OZ
z;j32=3qZnBGi-3x|3+srQfzw&26$k0t`PN7=tMxtL0F|>H}X(wj!qZA`w7`tps17H
z(ibVVNa?6~)Z@$HB(1-Hl`UhLi89{`YP8T17W*|@3Xg=r&7bATMCKUI%0tW-A%$xu
z1~de*{+o%Gdy5{jy8e#wP(il^a3_)7b}tW^<|;}F3E63cBg1k(CaPf%+fCasSI>0w
zP*ZsHixJhqAn3oTPw3`M9X4t!O?1`$DByLCb(56$3*3~I3$f1OM+UHs^I?WYdfW+w
zX|~r@M%Fs)6kFliw6+>z;=YM3frG;#K@wz)<96D?F|x{zIBOef4~M1xM+}($d)Eo#
zGnaf?#fla}(F|Hg$5n{1XtdOm6cYwQTxO!!wl+d!knk|pQ5*~+HkVf4-!H}2C?jHO
ze;cGdQt@@h`yk=bAJvD$VmJ~S88ROSKY#FP?K5NHr@d)IgtGJimh=RUO#=0)K?4u>
zX=U8`S04S%Bh|hU9!K*00SJ$HL`Ju_hL$)3P|lSBr^SUc?8%U-?&P(atjW8!dvw4`
z*eync`Y18A?iW#gFDX1qDl4q5zHf$wg2G;8L`!C<i><?q#P(!Uwuaz=R_EZ?1zldp
zwL>aAgwqJ)BCyY8q)HnR^J#d((DJ^IZFC~JSI%te0*&4@Qbj3fxMR-fN}?aNY1(xs
zLg1M8&lT0H&j+vt3^DSexC#yc3Xkv<^eu{{y~yCf#(3Vshl%o}1TrktMae+-aZ^Xo
zTyzyXQX5-~ZEF@gjBRTS8;EsB1Y#7ECb>rcxe5S-_4|+y9^(DUZm)&i)J*sTO!rWP
z3J;4HRiC~_{Q!Fo*ww$7YwwwPQP9|s0r=X6OGo8?D+2f~>XAYklgU{Fwg_mqg+bzD
z7>_XT$9gqTPNVoSk_@%$LI%JWAcRbeCo;rIe2gc$9OmAJQ(D=rIqRk7%&vb5VRuZd
ze+Ka#^*}~*ylMIebn(OE)7!|iX@k}-asdX=bxKTEbz2f00qrd_s_7hUVBsvYh{@<C
zX$a6xCXm}i4k~=su|V|jKPDs>bM0{cp%4`)6KUx{4i77lmPKN(KXliCEzSxHIuN6R
z+R-)UdST7=d|UbKi@f@hG|-UnHev>P&Q}R;Q)zXtWbBG`?waIY8}*KeSb97?I+`l=
zshXn#Ei<t0Y{=jSUbxnL2=!nQi_VgXep`hM5o*SL6uOldQOlUk$>;7<fEyOQcw^Xh
zTAza%u2fweJp?fc*$s4t<vgG4WT2JjDArfCeG3O2nDrJ;8VHqjj1@GJ(@6Lu8Hd(}
z7QlF4WrsqJec~Az1IQafqpc9f`s$zx5F`IGl-+KQuxgO#A3pHHl-IS?2Zuv<77Eg0
zdnqDoEv~L+PrI$nh>JLH;bervb{hRQGW>Q=!LQ5svm=SJ$J873i<PLP2*!sGu?9Qg
zw|<eJFbgo+N<JMCv2IjmwhaCHLW{7o_7<yIFMkK7&diLbH6Us@C*25Ow0PM7Mhi&Z
zT>ZahdQRGy*jnF&_ZKCuXHcy;ZGd+sMkk`Z_Is6y>;&oXUCb%Wr(v7zcL&CULjpmt
zvAU_=l8}KZfI$f?Ru)L(C2LyWeIYH0y85;l5;6)KnG&t$X#-7LsZ-4v7g6JMJ$jvk
z9XD)w9ShTc-4Y7Z%rGJ)VI4!SD+1|6W@i1Le76lk@?&^$Xy+h->__t~d<*+!1;<6`
zaqviZDR1?Z2Ls5h#?sRIkDD!{77ZF&Fx)8f4gmlYqOm72A_l=R)$-A<-l~e6NxUYM
zPWk!OHj|373%Uo$=h+<FFB`;<7<!14k{oi4WS+TaprnP}oCZyq6v}T#$(7&LeVP9^
z>|%P-_`&S^7H2JEDw;kN-i*$1Qz!v<^0W*$)wZyFpa);U%|}LiaorwU0I`a6`Y(?A
zO-PnRT4iat7UTt|`Uskq{w5)Z&YEDVR+Bgjci)WFHpq=f+8f=GvcT20(RleIOaw|M
zNt^&Q6;wlieRnv~6=Ig(-iXR|M@#m%@GQ@uUb@^OUI<3zX6^S4<YQ}CFXKXNOHXUT
zdxylz`Q`ofJ>a{Kdjn5}k`=THnbOOz^QbDV8;MsafQ%YC|HVE9d?qIrxKps{yp&x%
ze=%}xrN^q6S45%^ws~Ep2b%|zXoJ3q8f?mTy5V^xYgh2*%bId++>XP_F%G)AId^!v
z`uX4(c74HGH{dsO=I#sH^yi&hx*+w<MC$r=R>>kQk@|*IdY>uGUPO7%)?FXgt1tTQ
zC2Epv+m9?vEo!rij{RN~hBtDvRWJ9VeNQ=fskXn4v_7~iD)Mx<ikDh8^2x=wh5Ysz
zWZkI^L16Enh7|dZYn;!Nh#Q%{-X+Bk#T5Vd7*u#Ual%vGAS7rTm+8CsC>aGc;7Q~S
z0m!J0&fgI1G(W$?L6yt;;lfD@B9i}uIM6{J&JGvxH#Q{La?E9=!SF$r=u(5;zi4%y
zE+|#t>885uQwE>~1UY+L2&CyCgNq#w%jC2o+kv&THb@btZvmn)Lh*hf3UOzo$coQ1
z;1zG&uxuoLumubxYk$MHVc4N19{B>q7SAvrIrbM8{xNY$1|iUqPvEeKX|T}<)s|U<
zRJB+aB#rk!Ye?BYwZT;6NK5SK9Rup=av?+M6&3@=#*ym_4d_QEodf-3(9F5*!Bt{v
zhkUc2w^?E2(I*a)SI428YT(80mPV&!YR;M3knl-XI7w;60>ac(M54}*=kJ5hML4Ew
z9=jvSa2DE`@g8yazrEPMBuau)1;m5%=ViVzipsIlFkcd;7|dC>_^HqF&G2FrsnFPs
zv<-k6{X!M}l8d{9p5v#b8)!1NB86wTql+5yc}+<VA{|W?-dmUr0CxZuF#rBhCqlp$
ziB&ljiqelMz-p?SJj^?zP&SKgiFEBmM=4EJnsYtIky@@uRjte&V6j^6sZjYm!rLf&
z@lJw!G&bK0TfOC|J6NUaGmu=q@2x%bJ5HVW;a&41(q#U;CK~&0A*Es5h1iBJMOJmg
z7voA)bWR${I*8FH@a`sU-7Q`HZLJ}JJ$pZrSLV=Lms;G;s(DiDcyKpCKyH<@u{pQl
zl%klj1CiE)USn{t*Eejp{$mX9&kvtpx77{PK=Q=Lv6%1;mJikSw+c#AwE(7KfVlhc
z2eVc~2e10~K4B@0A5d4ycUj66$no=s`I_%!7r8`**FhX71ht05Y@LM_6gy>>rmm3;
z{0zh{Y&ewOos(PE$nD$a`5VhJYVCT*!*YoU)4Qwb0t-Fu(pQBIotUmKbHB7}J1DQ3
zllnIWk@0p!zfN-04L_6Gsk(mv&e;Ch*d*l@N|Y4LoeZcv$K%1;P)sOx(h@gmnsj>y
z5!5*yeYN~lA5aK0{gBGmnI&6kW^<)ft5pvRlt-_w;+}gA5XlT2hYmcB4U5@d4Q%Z$
zt;c;4@waN7f=TE*2)Dwn3ziRy8O2AZZC>5UIP-G{Bv*r!X?h~>K_j+6(Zgs7%N`N`
zAZ?yq@#!diB1a>Aqf$I`%l45Rr<9aG^K0m9q(zKMPN|xOw{>~lF0h%dg()6l27D}+
z5S`b;)Ud9*$LRDi&qa%Fpo#K7uAM$Pke|Q47|@%;Y9X$q0SSq9Y@9aRYH~m0Xfzs*
z<2<fS<rYe17F=JWL|e|)V`w-MvzJa+^#Ye*kJr$F8^&|EI+NJx?tw@I;=zEK{<%KC
zA3MFbb5n~BUk`qb_s+-Fs_oaUl@5~7eWg*XGmK`4HkJ`bM4G&P+Il!}!u*g6qcHh!
z+I7%o&^)=nJH1hVJp6h1f%&44Xjm_&cx3m%-Hy-`mydo5%vZDQoyt|mu4-o>O&iT?
zB+>QZO&aE?9`&t#JjuiJL$fKP@t!Vn8A}X=r#XxRd-yY<F}7*JOnnaLtBSkjxcQIz
z=fH}+eYa*^2YI%F_kpfe;EzWK0lCN-pIt+u%mfW;orrzjcGRzHwG(7`wfQRQL_d`2
zhpV3;_F=+*y<`dC0bS)Zk9f44`+CERGVcnSM`*_tTNWisw)(le;<@wL$M>+8l1J>P
z2b-17-ITjp3^h^Bg4IQ`O50&co8?_7=qHE84<`y(F2jzYX^c`Q!$O&&)T}@J>zu9{
zW9Zs<wKH!dFE@%DV#SW!h?k)$lh)t;0}iBGH&Ca3hLi+AjY<C;8V%1ssk3ly@*vu+
zLDM1S-j%&Fe6!VcwHp9o8t2h|E<la3@e?fIn6`~?`3Sp%zQ|J<U$a~WcxB65U0L>A
zpMyd+tW<kPhuI*cZZ*bv>o8t1>!8<a<7^vRv2WcCF-<w52o~e!ynn)VT;88@oSZt0
zMgHlr?lLwEkB(z=ODaUNwXnt=Jp9=#zTJ&4`rVDoPp(&-wcII%hRbH1_h8-V>sCNE
z8iFkO>L7T1-V6PdH&^Y3arv}XXbmKK9kjA))*a|$WQE?{tAFa#*f&b?C6cF3Q1k*B
zdXR$~N$!Df!zW$J_U+%vu%{J&#z{93hhpir?KIlD>&W%~F2tGy`FtUJu{`=@;Ou?>
zK@{6>xWOi-SG{uE+nn>P5lS%m2AW#k*aLkp)b-a-k%qbUf*@r|yzagJ?*=gZAx``y
zjn|Jv!ZXJJuW*IPu76j=#QMYbaAcfDZP)?e9)#SeYip1CAJ}b-nnAZTx^tZp-eQp^
zcfZSyi^ck19L5w4hdnU7Jihv7=sq^CDKqQ00O5|)w|fEIR=#y)icJ>h_?j(LTbOZJ
zTa>M(NQ9I|NRa(OD>J+9B{JCyg&~2S613<b^XX*AJmj>m$47mz`nJf@`F(kD5G+T0
z$(<EKoxZF6W2xJ|*M5b(+l$6Gd@7(-l=nI8<#fc##OcTd57wKObwI-1hxlOww*c*%
zeJG3@%bA;AKYJMpe?XjlG9L}y<s&|`=Q1vZZlybh^>A>Vr};<s9<}yY>el9_m{ey_
zsrDFF@jlIX<Y3|0j>|uDR-;R%=tz0*c_rT`uH3M7C6x-XeTXh2<alz)C#dAJ_!#`*
zy5;jWB;CAH3MU@y+L8c5#6R=aSQd^OcqN|7hq5^X+@8xtupQ3}wuo+XChU`MK-rfG
z9d;g;uvZ^m;Yd?K$zP#6?5dMGkG(s^jf%bh-Xd)D8nq{!`mXxjZDQvBmI)hOu@w8L
zSAaiD3v!VZ4RCPj^M=LI96#<m|F$tBu`ZjqJwN*Ql;@}Sqr1%$yhAg&ZeLIJ<&^I)
z$MVeq;kU|K#IA#TI3!~{;cP`L^=Woc_NM*VHgq>vH7#H}cm&0k#$)9+W!)Sql*bgC
z7-c4_ept5g)`8a;hN9<vjU^$tzKT(1+sxa^@h7t#YS7*pPiQDYX}xf@P1{kEKxosR
zTXy)8s@yne1+Hw}JBsvKOOZApL{Ay0X<vcmhr*9W{K;49M-&Q4+`evKv~a)XZJ<9#
z6g-Wj3WvcQ=-(j_Fl1YB#x>N?+1v#@0v*~QR`3ojE+81zMM#kF^n&l~!(;*)hHKrq
z=PjlPOMT=qot|M8TM2p&&5^Q_4&&sCb?k3SC-mwM@!)w^Ihbk365aMk>DsN~M&0&F
z<=QRsQnee)0u9-u+h(%e+05gfBhBMb^2c`5e&xnJix;ihJ&%8d8upc|;e(UXjVr6t
za`0hn8K%{CteN4hS$}o=?W_y5<n5vnZc`&{1*ToQ7OSUxdX}l*<j*ME+!`pKrGwqD
zOX569XB!>M)gFlFQ&0vN{z&m!VKeVzEK);%TX!e2tw)*0^c;0K`i`?q$Gc@&VT0br
zRvS(yniP-Y#pX6ker#!5s_vXZD0Nc&urJblU=Mqyj_@5fz9#9;H&U!Ng@0?LqIZZq
zmM>YW@nW2@u9#$tdT!9Cb#{nMt}8a4k<F((qYDl`MLJT~L`__``Oa&1o|#tYIZr=@
zrgF#6Q-8#dWb6pv{-`%(pQFd1Oc(y}D~G7gBN1$Mz!uI^W|>g)Ac>x8B${hh&kx)6
zY%g2Y%|A=zn$>!m^cqYwI2KWZwvL)`FVeya0Ak_vdzyJ#l_YTcEK+fyiz+yYN6)Sk
zZ;${YkF=vA?p3J0d1a^J$V6deOTU-WE?BqwZ$2=|vUy%3X^WQhn1bo)s^>n!*Xy3w
z;;1Hf4Dz)ZjSG6s<no{2?zvy1@|{t8MMSkZLma3<^{ZX(TureV+v|!GYKbd_kOm!+
zfUHL*TtM9X0>Q$CR2Z93kszclaWzlkNVJ9-^#$t?VR6zww+utdL_o-ec9!^K0v$q^
zC4$<a(hM}Xz=PpEg?z?pLGi-1;cUBn%a|bV>@7ef-Ty2>s9nFDd<-VYYdZ)h!fuUi
zhF=y3Cdm+F&_yU8C~;^boL?1d5RvTtLLx7?DBHLzJV8<_{)v3-5L{VS_5`D-o$|-P
zxMr-PqPXOa&_LpH2oL11e7_27S)whBD51;&IQ1b~3~CdDRC)1c;shEoEL3s+zqRFH
z!OX@&l0?HaNSJf0Y<Xp3GiLN&21(|Cy8Vvgct<=qf+TB6k`QYbV#<2GfTk&|kV=Md
zr~3XSvXtI|a^4h@xd8+s<Aw346132m+A3sDT3e{{CW%n3`|_r>9Tkguqggdo&AxPg
zoZ1y=&$J`zmh83OK-Sb5Ph{Hq>dZb`5ZWsk4j_rzKHkFCKQOeOo%wSo3Lj(PP2k3m
zNET9K_hfVEF8Oo;sxwecj1;9{;alW$4|)4lju%#ov6?uOX{(#Tg4{tuVcdc>mtv72
zJIXUAH1!M`NX1PF5tV~@*bXjRLd2q8%$!5Z=SUHl*S{1Z<~RN#7xDb2V%+$4jyQ%!
zj&O$`Z&NmGI#-IAe~}{HDOQlh$E=-9pYf1dVqmPEsbH2yW>k?l3eH^|Y1~pkwn<Mv
zxBx|?sgK9(cE_efL0k5OF|1%j9CGOBy9O|_<byp(?w;dtGD56|3ztY0Ml8Y*q+(o7
z?28PZjNY<}-5?$JWR^L=ieb+k@otV*oOL)x54ohdx8165DC~cIQrB463wvs7qzOQy
zNb$rrqV1K;iOS+UTUyRwj@YPLW_^BVOx3j2)2lENr*YxBZ&SV~<n<v}MA4!(5g9)@
zYaDU7W(lehwF?@(SYoL*1f&ZJvW$+PrZeec3DEv9ORVCzy$5;LmvG;s7@$9b*E{pz
zI`b^>_)Q~zWMhgNfa}^~(2uVsE+;6H+vvf4*trzXgEBU3$%(p70v@0(9kRT|Pv{pi
zMpnay^zf!%XsLs<B2aib5%hu}%Xvx*SVamyp5H5CO3FjRx!jqX_Ys`AfJTs$-_g52
zT_JN4dL`<OdLhiaa@0G|sgUsNsuEUj6o4|3#FP2qh?8{vO$>In;39y_0SDhJ=2!Xx
z{PHpkGw4fDHe!ZsRdz^qomgryd*+S3lu&!}5IUl@zLvqRu#qd|V%zY7M*3`fEP+jv
zF@{En+RG9owheu`?@NfyF4d!Cz=HEoL@?lj6wW2v)SSUrD-;n$fj|n)Bzgq0jUw7K
z(1<ag_`O}#M5xQcar3Q+X95>Dp73*(I&N*Fng(JS*iD1N%1j^W`6KdLpw;<8%Q!^-
z4d?Wsm+E$MUiqKHn>mos26#2SV#rT)GkD$Wu>I*V?^K{BQ*JA6%V)na3-{aby(d(9
z?PzdDh~cQ$-#T)BnY1w+N2G+NvmE^)Lp-MDMxtY?(4n<LQW;juBJ+$^gZnO4Jf#M`
z5dM}ZMn4^Lx0G|po*zHPl_d*%vjuguh#EUGBoZaZ=mg<xZ$lXK@6yhA>U=so9QPrm
z+w#}-{5g9fE*}WSmlc6O6WMBm<{65^nVZys%F!K4!kLR|bA<U4kD+G+D$fRi06NGY
z0OB9X!2ue3bAst>LkY9>mme;|Aym%t01c+%-9`ki$u9h@e18!NHRR#F6`@x~2)51c
zsuUiKB_&`TsXuBW9#($11y6Y4?xqCAK2sv}hx`{AA``+6DhL9@6d@tq4p3oi99u9D
zUpWz&%R8#`;R%5F%>y)?GxootGPYpE9eHLbq3-g-tN++|!3-Ib-|PStMf9@unIGIu
zGnxz8G@zu}MG7p(j>~5E0E?p3+W8l-SDs_K{Oh3%MI1pKtdq%V^97A2>)8d=dt@6T
zw7VqZa`*|wB)*zP6v8K&W6bmh0+iGD0Tqq^V(2q}0E5DOhPKV3*9TfSfyeZ3dIyCd
zw80NxggQdO4C2=fpoChcUI7o_2310=@T&$DT>e0ST3%cMF4!2xi+61K1CCVor<70`
zWgGr4(Z(u5_?Q|4IFbi!DWR57j7?m&jDU2C496rJ7-Mt2O>PiyxF?Vdq{Rciw19Ms
zViu$UVEQ1p(G8{yk9KB&WNfgu=>a_dHL-dmhvVPihGCAU$_oTJ=o+tN;8%E{hLca`
zh6P1sp;$%~InhZk9Qz0Bgo>1H7j9VQVxk)g9GRGB;9q!T0VokCa6%niQF&nduMPre
zvMd}5{;*HhssT{Zi5q5Lxd%QOLykQQQ*`F50a#I2v{0DBBfqqMvNs|qCJX%#km&R;
zMt_AzVG4#po_FF>c9)%SU|Dj%A)vA(F~R=(m*b>#5RIhrae79ei<1mYAeToOIR6e0
zax(s$e<+~&w)m02@@xblAV;^;QjGi?<8uE2rTReO9h(oYM^)+gj(2JZaV`%UGVyJ1
zbkO3QE_9d$b3flG;3eCm769mpf?kr{iK0wS{4oS-&Vn=ofM5Rs3?s-$YgEzCM`H^4
zL(q372z9#$Q@FaFquF%*>yvr;x<H}#KM?wMkCqhrNkQ){U`_jb_POxjw(fs+L;cS<
zG(Ff*j|xn`W6)dNtvY>m?b5|+zfdonCSrf5Q16o1HMss#F=;X$&pdwqns`84koRp@
z-2q$blYdk}IQZA~;obaWVtPMy8A|=qWj_d9){Z=j#u>DELhzObncMc1s!;#*9Y}Bo
zJvqlUbtk#v&8McW8xy>Naj20>vL(xYW0G54v$uSVT!WiO^Ok3j!WWG^(Mq1|P7m(*
zTdeA1F4D10Pedv5RCKgJ%QlRBQN8nhl&UNB0ng`bt5ZwtulFblFIr;oV+P?{6HMg6
za^l~Akpkt5jtUeI&vztx7Ogr>gF=<>vLBaEu({|VuQ8o6?1S}IS)kJmi;1*aVzrcI
z1$D09CZ36WmTV_YCWrcKfbp7*`!27m(AG|2D-^P6BDoI;LytrGFSc9JJGmsxkV92{
z;x(Rv+Xq!nZy&n$M4mm?nIrJm=sn-~-=E^lcS_vR4&45xHre5O(W)frH;7E{AkO0f
z2kM>Hy88UOY<&#~w9&wUYvEP{qT_|$&?z36EF~G%Zo6QDW5>|F!gs|t1>e(-7|8u7
z{MC{0fn$(CQXslj2Z4nbDL8U73M$m<ba&aPfm;+)Wv(9Fnb&5!pn?0^ySqhwLlw2|
z*|Hd(bHmHloxMhOsS>JTv=Ok*yA_|#+0FV<lFs|q8~MY3VXa6Kct1gVj0fBRFA9})
z6^a$u%!!3umW*xeLwl5jH80_rC~K1*N|e{^Da6>=4oQ0?8}=v97`ul!>l!B;ND0$N
zh`~{NPnm#2p>6wFql?INO}e8m-S>UOJZXWaLGOkTCT`#ixZfNkI#?@v;GC;L@^vq?
zjNv0dfu;6DxOPphSXQ2m@Q3jIUw9Hn$ZT)A#!8W9ZujpcTB-9>?A<~6W1oS-Wxau2
z|JOIP*cvN{6|y9h??Z${8z=<q(V8IBwZnXeD=za;PK3<z*{TV%Ey_@qfveM?%4N<1
zPUBMcFzIPY?ho00wxavr^ztVZzPf{QSIiV}Sdj%<%*C1g;GsEU%ZXxeX%Pv5G!7NB
ze%i%2iY12Gi_&$-W({WcBvSitu!9c5ub#X_DfpNYX?yT8=SjRuXF1jr(T30{O`Lt<
zg-Zq@D-I0`k_unU=I-sNrdXlt>UV{d{n&cc9iyKa1JNC&)AJP$zsO@yRl$AFV06h5
zS%eML3n4LGDmL=9?tveED5`YlIDh2hFP=7fA-spp2Z~{<ud$wM_XT++;eCtZ*s?FF
zMozM6DR5gmxLQf*!h|8${E)auvPUga6*On@@?-n^U_1WYw|5{!=7IjZG425i$%<Ny
z+2lmNJjfVuSmVl--S-3<aCZzln~2VuSi+Y3n;3S&W&MUMQ+;W)H1y*+iaa6iDpo#-
zBi1HWE7AiOvWdx}<WqSAS!BP!^WZXB&HP5DxL(e~A|Mm#_MF3js!HB%1lwAl;au>1
zs>QqNE7?F<f>1_*2P7I#C%5k$T8)ewq==bggoWf2eFHAJ%wA+i9F{$Bfvi>bnVo>?
zvq12-|MkL`6NcbANJkuzz%NZLLlINQ026%oFz_PU{%6EK(_XgqfE5U)@<(5tLulqw
zD+ya<-)-CMe8l@4+Xi`}W2;+K#q_Sb9V9?83FjZo6(q@Bb_BOP%;>CnZ0_D#l?H{h
z-;+zam+U=$``Pbb4(}xUV}mga0?IphKLQqIlpRhG16=kn=a8tO%zp;+P281Axa2X5
z{=J~|C!KA%YW#FS9Z%&t7a;9qmtrg5ws#UT6?ZUgi)Ev9n~3x1JEXOt6o>wH3BkXl
zXXK`e)BE5i>pKLqO)O;a9JsRfU$jVOULXq2BD@sV{acIZf(=5>PL$7SzKyC;P2FZ0
zH9#T6MEq;tCGQJ%rs9*3g3LaqYQ#)*tBKF3jH*8tyXgAl%|&rAjvEhSYy_1t4^@=Z
zP>&RA{-qelhu5gTjO2U-c11XSXtTX`Ot&z!vb`5+`5_>w&QnkLf-YniU4zkbF0=Bo
z$E~sXHQu*C8fVbKPWkAal~lcJU&PM89qxC&{_abS3jHB!LS6yC)lEvi-EkpMlKsj}
za;Sq{RiB8Wd}*e^dR#O#nngml!0q=_;zG`j3jGZl^lOh=Yb}<E&|wH9bCXEl)|n_b
zj7Yfblk+mY)@K=`=~!#Usf<_FG1DaFbi>8%C^-15TdinOp^m2U?xjf2Oalw}dsAxy
z<2@<hxVm<XZ5?*l{*CWbWJf+UsuzPzJabW)*BImpkPWbZ^}(*6araG`H%%0i{kza@
zqyL&Wnap#=pUzAQ<cZ>Jd(C^_D~3B)DcRI{z4Fg4rpa7f&r1!#QNnL<Ej0t-ic?B$
z3NiV#`P!WX&#X~;)OWV-7~jqeWdBjw+L}Hhj)~r){GaX0BR3pr<zA4lIoKE{7mB&e
ziNY)U;gJ?rb8rEdk;a}2>3jnF^HRx_g`N5kI0@ytR_wKMs3CN&JFn+&-d#oiS<hui
zjNmeUzZ;u4NCydK@Xx#*6y8|)h#FM;rk!8Gz4)h+mM*;RS1f75ohV1$IzVGsCYhPi
zo+=LkO)**C7b@cfcY6@vA6oQJeD=^(;2maWM|%BS48bfrV2vY{e-yawh3AIGm2T@k
z@K29JkMz^K%%7+yDZe}e+g&Ky_W0zpvRVROZfyv|n{+4B((Z6^3i9L_UDEmS?4@p6
zkj=nk)6v`~&v6IG@4=`Y=-kmsp#yfoJ51RjJtqH}-T!h+;<*FP!vGSV3zcdTE#khj
z5#cS!f=heaar}TSffMS7xel>g*C|+oC*g7j59+(LgP~tSuQ`4u;HE!nXv|YP4HWr%
zb3q#gCcB!h8B?H`{%kvW3bE{II~?AD^c{__-G-8sx|qi6g_<pGpu<okEu%L#0@bW*
zW91NKTMOy_H9}lAV^UPOzc-=)5>)$U5V-~4+|^T%1>fp#%duU+vA?oNTjr%Bi)eDL
zhuqF>?ugWC4@K5m41K^QivvcU9anVx47%v}yFb#f-p_E2U3M5!H<gg#6LQ#^B7<iv
zj0WoJ`?|68Mna&j=;va^uwSgqO#-J-%oh1xXcU7jg1?F90Y9OBBEJ_IrJVo|L3R(}
zZ1Dre{Gr(>iO$Q)Ey{m0t#xu{n^*~zZEKkrFE*!AM6)KLv@rT;QDw&?xJ{r&B?WY}
zfM&LF!omTVAmWuOuP5}=R+X-_Z30}LW2xOos~;;ig&9cqX!)UwO;X>Tsq8KFB<Y*x
z@Ete7{x5&tYp!;lJnqWl_u$4Nlmq%-LciNzt0!5WiF52O8U8JMU5Akk+%MEpl8UK2
z_A^M3WQJD7on?PSjJtuMjpnQW+$DXh(=T|CT=K0Q_WjBDj0>1;?~b7e3%%O?ei@_q
z9Zm#a<3#7H*S{DQEHG4x{TB!N{3-IeV?YdKqeTA{+pty@3D|QU=W*{ow*;!2{W7k`
zi_8KLPad&7kD?4Ds`jf5l~nI37XLMqgx)lXBKtU)s8RilVl1B6*A7v;FX8>?59vAl
zjk82sT+#PTF~zvikNtb%BFVQF=sT>5ru!8h!#6FJlR&@?9&`UHJhh}|dH?SX+7PLH
z%dpuZQIajPf@do~#B;Mq4Ua1V4iXy;h%X1ru8c-C7}wh~Xu6`r=pDYmn>DIZ!dJa!
z@77}6T>78uI6|$3C)<cu<-G7$JLo~PbuMqw)gxUU3ov8F!k@IS09f4grI&kgAw7y9
zX5Phc_Ur}Yo88B)QE19i)}F<-Z_3Ps{Ch}0#Yu?_h<k0LwuRE4x4*mYDaASl+Aq|<
zDcfGu?Ch`G9uSrKUPssXSbrV#oj0|aVtk3p&KU%1>*v?_+OnLg{ZucsrK6RUcn&uB
zXd}47`tXzQ<Eof)MDv*)BPV$yI@cxG#C15<+kArYq2!JXfu1eji#N=>z{SBLW?F^V
z(pfqSMaHi8aWl_9j5mq4wF&z34lsK+7SIt}S2ptQJk9{s00MYNuY6fKS3xkY++_5X
z=SNTAvQXjmQ;x$-k$TWJ9=M-ISN0G&O9$xr=hy0(Un*EeXFz{rRp$=^vFVmGV&i!K
z=$S47?WTQy^J$4D2fPQ`GHe-dt?Z)>T7YFEj{l|2+C78W7u?g5-TZEUpeg}tv6*Ma
zB(v$L?(@6%u7gdVHOpR{-ic>z+mar_ZDPyjaI}D+cfi=U(soP_fV+=pKR9U$lEGh+
zxoKN0*PkIoHTN$Vb0qw1?l%uS{#AJQ^MoIg%N8dnr|*G#D)LOxBDxfKIMX=&2M|VQ
zgTsyN^q>~@t;o05GqGV8kO`72xu0Lug3wrtssUWEB}?YrPppevqzn3X;VLKd*Jk}8
z-&VaNvk;&!^KMm&t>q%E{d%Od_P;f5TOAixqHXuhZrlwhAU)N?U#l$rzec30F_*@+
zeV(?lBpB${B5#M^(#mq7b1zi}7{76PU>9jjDqY%HhH`KR&|X&Iyc_oLXa>fxvkiZk
z%R1$K&jMWeg%AvDsP<unb5xapflbmI)Ht7o?J=Iq8JbYPgQ@?82nV*}I$}n4OyCct
zNJ7Tg3hkJ;9aRS)A58H>nf3XKH8O$CAmshLpK^WIr<$kNp^{Fj7y)mz@DPUbNwwjB
z{P%$%`rwHmWHDAz7q9ArK?}ndE~=lO2HHdEt0O&}e$Iyg8o1{s1qiG4tWBQ=hXrvE
zII`d<1K&0tv@rVgf$rc#_Ta+~bu(iCol8Lz2gC`KNInTclFF1g<v5_7oh0fj;k~?$
zxJtf?a(F>Hmahz>zCb@!<uHvH!DQLAdN3Cb{N0HsHC@uQeNuJwsGhHI(KQ5ViFx_6
zQp}WiIBzkgIYB)Y?eIOH;iZ|_&cnkmQLa91*2{7ylqw+R#^vbc+9N3?I;y?~!~O1B
z?M?B<QGtCppOw(Cwnp`3dLd!NhNgXd>k6~5N^9LGfQ&8y@qX1azCpP;K0(~e^`+5z
zn(aU}KR78LLo(YS>ZK~)xNy@QALEi_<7GZ>g4B$eK3jDd_f*%Lyrzkhy*xBZ<vg$P
z`~->jxgHDSl0s&^E5Xs5y!UR8z|yjbpk#654?SFDM<r$AQM{Md$<q5BjO00-aR&~G
z#fmNgH_O}D`BJ>5L|LfUud^j;Q$@S6vSKAz@FJzO%0yY60WJ`COEE<`BJKd$9)BY-
zP7iJ~3k!Y(S$IwlkXlddc(cYae{E?T=ZDikQdrJ+GWbT8fUW8!GS(stPbJK`GW!nE
zGQEhb<nyO3?O?1B-?b)!Ep#bJATGQSSWX~Jt(|CRe_^=31vvlNIA@@<V2hVcIDaVt
zNcRM}c_bk25*!N`c_d_0D$r^y<zS}W1*D5PEY85WQx#S=;WgCgSb04jn?N9{9MVvz
z%?0_;b*71PD2AGFSSoNLGZBkWer;?@s9FcZd<BnZNjf}WOT-!}P_UZ0eWOH~X~ex6
z3}!H9A0V)v6sGw763@J3f5IQABF>&L1Yobm_>wF%Ji#^1o;&GiBJm=r5OJmjWcd(6
z%Mcg=+@qcbL~zD4#Cyve`PZ5rrswqY5Pu*AIHIXcl#^KS;GB6PeS%pB=_V8!HW#bE
z{PJ$*Fv19{9+?8DcfKiD!qBhy3q+A0I?kNI*`v`Ao#|tQ=4lB1exc0azliyxHzfRT
zHCrNpN2=OIGGmEM6XCVvghmlhm;<$Kl;FfinTGwFh=t%Pm@9*TBgjKBm21-@1yo$n
zf-VS@7|TWLq7-IQLouz!CYguwHI2}METvSU;ftHG47=!zj5u0MJ*ie;2hy<&F)z}!
zTaQFvglxa3ul}Z24}ZBj!zsXDSUMI<w}iUt=wogW1|SW>c86kyeh@Jzz8KPsYI4(C
zMH?87f<d@QlpA7hFsjGgN6u}56uEM=>_{iMn+7Av8TDM}pMA7Bjy%#8<WWSYh~Q}m
zjZ9R;S__WkkYZJBzzdWzIut4jI6B<+GD2ye*+ChW7_c4SJ8*_OvyTY_F^O|ob%YXz
zxW`Xo4pkW_sq)W2+=KaPb7={Plz&InbAHJZQH1~@D;KG2cT)TgJfm2UB6q4jr+CO$
zd9#DJY#MVMnTB@JL3WN4a|flBmOlc9yuV^FKjaw*<f$>&EyN}@dvpg}cUfb`6S0<Z
z?^botm{S<4(v>lBPF8a#iLBHS=7P#9@6aM$!x^yOF7nJI&lwbXIO0~AEv{g5x?{N6
zn|_jpDLC6(ODvmeRlbejI#bV-k!)gNkv)_p&vaCaI141r>4Mz_D#JQ7eF(p|DCpH+
zh7&8&E|OB@T20Vn7-wN^&j<aR1Umk*#BVc;k^^HG5Y8p07Bhdam{K>Ld~E~@7KY8h
zP)^;8UH<$_etBMj?Q~9Fcvb?Q#4Or08PQ*RS%pHk{5QV+ig<H>tr#Dk#5@U6I&dN;
z-m<&~)^7=(@I-d1GjSE8v}YL>=i-y(h%Sus1XS=c&45;MW#+vbPQP+3P{8T7Dl%jp
zb{{0Y|DDXQd-=*xMXkt+6QSi+k~_fpw&((wot&0}*W6~#&^e<f;C!3z;(Hx%zHJ|<
z68=sV$uxac<y;vc)9N?qz*F;XS)$E!zwwCEDapVyD7gToO9xZ-yePt&Z*^oLT{f*|
ztf>fQ(%C#$WRv#?2JCCPG(zO~8U6ihg#CR2MwYmjZ3HO+lZ-w0K&u&;WR()#pHOQA
zCcY^i-G7K_86tkodmSin3Y&}ncp?^m9EB2vP*0+}K9Iy`f;C=vDH*T$WB^HtB%#y@
z5}L`iif}xp0G=da)CgRn_$i$zX6Xu_T0TW>3?`Yqpb><0(XWbsT$+%%+<}~O3`RAD
zz!<#J@k+hFq9L@(;QqQ4t%@pb3_JDy!fb1tfoTw?V_fv557|_K>5vT86?cQR?_!9A
zTHhr$k%s|lunu?ycX}N-NkaOiZ?A0@9kZBK1Gus=yDA_+Z5KQJor&eFQ~-csF0Arj
z9#>H9yWpm@(jVBggPqFEU5-!&AhM~L>&9h0Q_z~o7AIgdlblUZrk(5LTovoD3NoxV
zjmZTj0oY0ta2bw``T$ik`*k4{5KW=R6<C?bG(e@z|BByC;HL*f{Th-GOyOmMfwhE^
zM%`HFGQAn8&1Ejq0aQ^_04jOYU{x{Krgjt6y^TN2)b=(b8E9>+?^DFMM+F+eLCJr-
z>`%UT=x|9Y)`OT|iQM+4M%5u_wz9SYm|HKn?2oN2e#zo?Yy>gqId>EUjywuO${r1@
z2ccLvyzI5Ch>GCM8~&Qf#inKyS=qaqMzb-@L1Smx8ivqLvNZz~yjv&TUG=XocCxa}
z;%CDxH9(t<W4E?@z3g3S9I_V8!f0o0nZedfJTeD4?G*ph=vQj^soJBA@K?QCDh9Q3
zXX2T|&z(YTiXdkisM=q@`IRAQ4lXxN)f8Apg1Ir6RG-LtU-cZ87y!UZh&BbTLZh(s
zJMETIXaXxYqE!P`L`1m)aqSPG11&p?O8MKE7NPO8jL#$FC*GQa%ggvQfs~sH0BBK&
zr-8z}9DiREtym<gB649R0l;{YY4}bLx1?9RAO8ed=K_o|+x&mv^gr;mfM86HvIuyh
z{15Og!Y%A(Rak&Kky|aooXCQdnMlLxLi*Whmf=m=hL)jC<rvFxrEho1QKxfJ=9{J$
zeXZxK^1C%gSNY$Zgl_<EOJFoZRv5=>0&mL@H-mI!$ytIsvo$ZVmV<+`Y~<NnLU8iN
zds%`%%V1ZaEwN$!b(MEZQks?z67r}})!!|x%Iud#Fs;SjM}Q1N(U|rR6LZpxspAo&
z?p}@_m1kaTK6vQu6GVz=O9MUxB&|5s`oEY^Z#KLmlonk{iQ6RCrJo|dqX`jOj>m`#
zetb>VNBHZW_v*);Km37noN8){i>wTSI_>{`u$QKV_&iUB4GssTq4s%b7)H`G6&|zQ
zYyEqM*wzj!g4M_5=tmMa5U#Vp{N*0d;3bJDJ^H84-@wkBNmBvigkz%gs#9&xo76oc
z4g~Ta@Ju<jtb*ul&BrQJ)J)CA_7EykdbXC^Sg$7`lnn(2>lu<hJBIb&U?a`1b{cdH
zy}-Pmp0A7@KS<YL=!Qw(_T;{Fblu=2Fp(t_0cGH}Ea0|qKkY{FAE4SkDdd8I5slz0
ztrtE0VEsQEX=%UEJARchnB5IX8rb>-ar|UQWHo^W1Xg|;h&qgA#?X(}evW!U0gXxg
zgP~-q!c7DTAP&<AEe)EdsN0HTG>sOg`Zl=-OLPx4&nEsU^<{>c8YjO9wXk+6!ixRc
zc9>bn(FZS9ot3O}-&z#4N>>9bJN6DkP1<I}oLNiD56*GN@&HRQf}nyK@qbgytc9Eg
z?MAQ~w(t!!e)}3{n2NQ2BOe!SnHjmmT{mAX**&bJf&6?4*6MHiR_9?Kr?^?iE+w!4
z`?XD&%d2BX(gJ-h`_7zBf`Uo=4Y_$gW63qlNqQH3i0ci^1lznCT9IrG!Hli9!UFV3
z#?TuSe{FtjRfLuf77g*W!@{vS75|69t`?lnUv4$V>D?aAx0S@X>N+khT*$5D$>~Mh
z(8|&aJ*U%50Lqxm5;Gm)%!M@Jw-&3D@!+1FrWAst6n?KSHH1IP5>CvujS|)hlh<zs
zGioqd<fU`p=E8x0cX2Fy`nwARH_i71QzMXhHRPW%aQN%vkO9p=y?XdBneUL(!v?;*
zP}2W2xJa9xTAXyObz>MIX4z-hg&4~bLYDcbIG*hd)n`Fe0&X%ES+t3^a!;}}L3tUF
zNWv?K>;suagfj(6!8{H8QV<^>!U#!)wZFrQg8PJ7s6zXMp%V^GSW|?RrC?>t9t@V_
zrLhLYwv_{=57kssz>ouXlL^n66jX>VsK81psD_ma5r`(@kA?9KYs3g7<r-|*k|3(P
zMR+@|ujQbh8ic`PN^HhY^0A8fO~}|)Udj#WsMb)GzU4S^WQ~G3EuD%X7caF6%Tmw&
zns{1HMY`xu#b|76qKhXoxY<ltI^KBNT<l5KE)N(~giwFUL#kyK;>Vutr}I?obH`@&
zS=WFYL$kO9q@vgHTU0?7%d`Bwy;PFO@2w{)m-w)GFNiQ6E<;bmD9{wwjkYB6P^btw
z8vaYCxQ_ePqOKy0z!s^>V_phh9jQ)ht}<mQP+6!7tBKaCDPLHtiPot(S8=u+jBG<e
zAGn-<qTh(AI)ttDT#fGjDl81WwbU7@@6>stBCN#~Qia}CUADA`&<mGfb-5hUA!)S^
z$Zd6LRk9+PKq9#nf$UZ~MC;|eUk019h}ydjoSbPUIh~<H%`z%k&m5#|F(a)|&7ok~
zlRd^lP(!Vi@?s)TxwfNdp_f`Kd9ATLvB~$67ygo)u=!dwpAJEGcT;&nw@8`bvxHM`
zU&Z0=E(jJfjLG&|9lVY=kx`p=vgNU4yWdqu#^@55zJnarJt&iw94FyUc)932{^-M3
zGx(g<b`4iu?hJ>gwRUf`-|KP%J5pCE=^?tuZDQvs*4d$#CvpljcyL>5na(0LTWs8#
zRH<a?<;zj{jwUHvM}>QcjSfF)?lglIYRs;Mik;NSK&r%z1eZcO9t6hS@)VzTeWDh(
z!rZ0PHp61CpSU+hOA*o7?lr6TXE+p9Ep1T*t>(x7o!&;|Q)GHiJQN3-*daK9!nuu0
zTa9UpT%fIn0g&}If*dPijF{Vi1Vw<P$C%_VA+nw!)TebMA1i6N3kB9Cy+G9<sF4kA
zGnXnQWMeCybU&|60-7BTRq_-rx-kNNI>&ckI-wKFxOyIVy(~ghv&WP)qK$L9q}Q(?
zelySXnVTY89K}!!Gk6J~-N|v5U6)_bCHejaWX2R=a85))=1knsSgIhQ>SOWHn7JWv
z_5KD##_q@rB!UnL(8Yof^U)K*aJ^t~>SO-kaP9H?8hv-f#_7<Q;qe9=gZ2w$Rxtw4
z?zH+PTN?NotQV&q>!iL2>!}f??;g(GnrYV*7TGq?X|J=H2bM%fL4S;KyvOK%Lj^rX
zE%aHj<7yx{)ioRGDzgbP^*ngi?R&wE7HqL{kBPZ?tg3nob57r_HIo#<an%x#wQ;+(
z(A{hCa_Z6}s4QPw|NVGH5-SRmXBs-Wi(*z0?u67fOpM`}qHC_4x~U2soN-+etm_og
z7q0fZsaIwpYDK%yY}Ubmvu^9AcSs<=OWT^WyYPfO=WIm^iRh^Ci?8qt+C^*^rFPlh
zHyGH>XuX6U3<}=%w;>gFbzfDgb5ZYpUtd`S6-nY!uH9A6fz~bfi?+9%a5SaMktBSg
z<4i(nC3LZ^-pNj1d$z6h?MN~VZ-k);P41{ctkPJp-l=mEg>ijOM;$<gxVM^F0u3qT
z0&V2P#Tf%e@bsA^sowoK;VF{v49dcMDa^QbiP>?$5dDz=%X$i9rnsYFf)@TE;Gymi
zcV=<ugl+cZ+M>=fp68LaXIrwUw(Z<_wSEb2cFG_Ucl=c_#TuuK4c|GH<D7fMk;Nc4
zq_J!)bVpFK=V5g$_zx10n@VHT@qit*>ixGh>?U_83E&?*scCD|iiXcZWI+h{mZLL}
zaqq7QRzxrVp~Mta`eYfmyv5Tqn15!zJi9Z?&Ba`vZgMw2+1tAPgcRVTb^Pjg422?C
zL$$y3BZ5ha&M|!hYRsX3y<P9#4xCzI4?N{^@51yCgB5XyB~mT)9YehsU}lx=zK7O9
zl0s1hiZ|x)lP1H^J{TzL%MG7dRzIW>X(RpaBzjAh6pvKI3p^VJ)@NuZ!a@q9+4T5-
z0Td1E@`YrJa*Y&$jPHC9CX^`-RrSR9UOn=_+Olj2&F{|Pp7tO6637y<J$Ta-3?2+7
z808!rmzNMJH+(^#4Z1ZX?C^mglIL6Z0L~8pD-Q6JQz!T0M%x8?GL!J0=<%K4x(r5D
z#UakQbR;<Mn;l83{q2D5ezil!ov~|&O(jv#S$VP~IW0`Vgd4mr7%#~|UG{~~mV~Jb
z^|B*r)yodpu9qD$F_KUqH`(6{_S_Sl+*f5nc@QjK%nD*!hO(722Th^WSys(+&K!C;
zN0>#S2a*^JC!s;?fy75T)JHnnM>^U^I@&`z5e>rB14{}u8_c4;#G-w~0;=)jgT~az
z15GuCe9-twih4>)(qCk7y@B@QjrQY>_T$aj_1l5Qi^b!5k{F)VSo`6Lo6hk-q&*R(
znczjWbue6bP4LE<3Jlo6#Dn%OL-$V;yhZ}y!<N_KuB9h#QXkGSFG`vd(VWuzLBsJ8
zl{Z1dL*e=nM585H=v8eK%qYp1kY<o^W{lrbl=ovv3n~kw@cR9qn{$LBSW#{c&y-PR
zG)%`@;XuX(CNMKc$OXb1E37%Q4nQZANxCHP^=%D*d=npp?Q56jMr~#aJ~Q>2tLAep
zH&-{)fB)P4RXqHF0CPb=RnJ%nM3qeI+A1#6+5QV)<hi*qc$9(5b=5`P$i%sqP5v;w
zWPYA@dg@Vz@C~_&6iuU5@J-&K%{2^0uP-|h%q|3wV9vHgC{U@N27U{wXpWIMrhYE*
ztWe1fm1T}zs_%P=$VH-OZatmqqzwAR^NA%Gf1p1Gn85TfR4>O6e_#wIf=P|~E(qzU
zCU2`A<NnlgTv;x1c7tK+k9~YoEj%r5Xg7<3?kw6@W#M_oI1yOd-d+!$D~?Q^Mj#&)
zM|Vt~*UoIUZ46#{BtO&QYxmXk-F4hpndfFN5rl`<t=95p`**xreU!9s2+?t3^0t}y
zZ0$*XU|Aar_5u8K51?-c6*hlWI1P&$*%=bdM$;yl(&`@GDVqk`N$1H*)oug|U)(2N
zDXaVUOU$?^Cts1MjxM)PA$i)9Z@rM8w`Avw`^1tL%N5<JfezqK3;lA~OIV*+{s-u-
z?AxdpkOX+zrIp)`n=lZD)i(;KEV*20)TY`-RjW#EZ$=X{*;s&$Y!k9?UqcdYqIRXh
zD=v)Cd^6)Y{J{6k_PBMWm4p2BL{FbL>qm&9&S(KG3Zvt!Lt`n5b|`Awpglmp*}C&n
z+WPTh@%zv4rTy^}QlSl{(viur!p@&I?}%#LHI#q5yqv+}7bMo1$vBG21DcJhq#(Oq
z7b$#zkgVQJ>5WLU0xe$yonZIkh+l&hslFwHj#lgI+ocLo{91;r@LuQM|1K>tUhe&^
zxlQUlz4<4%um){QUbuMQXmn7?XX)&s$mXz#(7L7yd>&Fg&xG>}JWfTBhfG$a+?6?g
zWgxyyF)Yj8SnZ2u9U5n0knRxXAs*WU@?7^I7fC}Z2+YQ^g~iOqtOL>MOAz{i)e)5l
zgLAYHe&JkNptf@_6U~{;MMJm;=jT)LnXXsDO&iN+3=Wss=QD#gerpV2&1RyTCF4Vt
z{~~nT`YmHacXGm~rc#dy61HqA*)>|!vs1iREj~8M4JhrvcWnmd73Sbo+ID!Eeh!v4
zqp)KGw%_mNiOprUmR(4|higEkh5ys_hL8S7$+>L2xEV5kD(6r3+{Br~nxI!s`n+jq
zq$1D;Nbk8W63L&Obi5$fIGYxMZ9NSa+j^23uJv->GA`$J@H#hK`_(9rC_KX^&WneN
zt>3GLPC&+J^A{x{E2M~V)eCsqwOVU)qc#+s{v%_+#vhZ|$)=NLx6O8E+b<dggsm75
z(Zfml>nkv8gTX;BPiA7`aL&E==yi1^@Ymzb<L;5)F#Lw^9?-*=`_&cjypoa_<S?dW
z8l^DHo?*Q8f*s6o0yzRWK?R>&hu}9*6Z~Wo@Cn5uzn;r)zLPB~o;XD?f8^EA4clHV
zumAb??f3lYZxF<UBA;<O;}l}f=C_pO^7SZ{pFn;;kt_#;%Ta^#2h0(LnY}Fv)D&`I
zc2S$%{qcEp)2^I;f!+*Y0RU#e2s424l7H;6%IZu(^nl)1loA@S5*Ft0MJ&GtOiI1y
zU^gTEAv`pU=hb0Lx#4qW0)PIHLqIkbF4hKU904ZM6u+ay04;3L)6}0@!DoRD9D6e>
zxSjLZ&Us<yys&d#SUK-wZyH(QBOnS3ys)${?Cb|szqcch`dblHecz72HUw-P0>l3y
zi&hMTtp>tY17WLyu+$)|N1}}jp|E9`?HkgHLReEAQXa_?Z&187AZh0>I<RBvp@Eti
zuJ{o{92i+##2ZLqET0>wdKwyZ^EGc$3bp~f`o^A%!>!x`6otKC$Gp{?<0Kbla8%!+
z9F(C^Snwp@_9hvL<rXLbkn1AzYNWJtR#oIs!m5m=h>>h(;BaSjsbXFT)>L#RiZ=>N
zJy0a49s@Ocy9T7*?Ly#9o`|3^y2Tj^O2{|1By-tyWf#sGp7m%Di@M)`rwFyXt`6>W
zHd^cW-t^-XQ^rBH3$h^T4I>kh-iR_F85kh?EbV@;kM4C#1BwiG+XU-Sgm;vP(wkHr
z1H>6&7A&nf-2mP0*9P!vk(O(MIl<}pFrZi@D8o5EF54y?bxV-)uv}+a9QRdyuGJ6*
z=+5kKf^Ugv0H0S29)%VToVH{!I!m4%1<KH&g<2KdYA#hsr;U_B2AXt-l`6`#1$qNW
z8F)HsUdMso<o2UIR8%2t8C5ZJ$Uv3T>%yd|__*~@g`LX(sxyW@t9BX^^$VYdM8Xl#
zP&w3;sb8NnWEv=vnld?y4m*oZIEzj=i%z(TZm`U1N;Od9F{Bdiyb{j58ZOD2at)RB
z47mmiwWeGSW5h0F9I9d(atVie35R+Khk6NjdYvf%8<Gi!WarAlhHSzm+xcR#5nm^7
zHe;~Ot7i5Ym6QCgS7YYm+2!f(QWesXT^ZDhP!$vHw_(TaqcX4~sp7Sm$y$P9K^dVs
zFgXkF@6lA-Mas3H-HSLn(D}h?ObU(*fi%$mBtg$&T`L4qjIspa6cmz(;vH`4m}*pE
zN@%QOdoGF=MC-s{cK$GA>ebH$T0@R^2xR+F(HJpnj%cqh+14!MSEE7)SECN5K6Tlf
z)<FZ-7#hBnHE2Ajg!yGXCRv7J?oICtPVOtkIH3zH{{V+w`=~P~W%0Hj_h+1thKn7d
zJgCBNURvM&^k3lD?JWEPLdi&Ce}`iK2a4<Xj+O7#DyY<Iob&V=MaiS;4S4OZy+7F<
z+};4$(GHv)wi8cGWjfzeNXdePk}_CUzpAIk*z^L%#=E6|5wSbx8XZY}ohT2df#>2&
zb3R{UR%Y;{dTwk4R!XYd2`^zMTvqdV%gXGsW7TYAMEVn_x~|csBkoQ<?YI`s;_9{I
zm13f!r`5GRYtPfA@-+yXnP;VCMb-CP7pwz1kI)86{bHV=6pBppH=oVljg4pZ>k&GV
z#7<}jG)XL1ELYh~s&>ObN3+!Q-hhsgjmG5w^@VqT-qM-XHri*_I$_|;gi%jhoiJW5
zW2ionIWeStDy%nhwik)y*UZ+5W$QGSUgKvPk?3hOa<1&-ysTI9y1!bdIyFm2xZF)-
zJ;ieU^YU}_ab7OILCWR+e)T#<uZ;zwcqXgY9>ksB!v;!ww|iojPMz-2Q^oUMJt3$`
zwa_LNWA<V6q+zB(sO!WXo9M+LER*Xq<MZ8~)|)iEUuh!Y`)45k(U|zKH{na_>hpgW
z!4s8_7Mufk+Rc<}Z-OushO>Vph+IAj;_RYinJ#hra#CuIL~geAlKuKoojMjS8Xa3m
z2r21%p1$YpffwX$M%)312ixFrNQVRDc0o~6mJo<AVTtMqTL)tp2+DA1@U_oV9H(x!
z_yC9PEAT{xfH}uu=wq@hQ!-CVyK1F&5T$h@Q?AvXMo}iolE!1fD2|XP4v)i^-JbpS
zzI}?uub`2HQB9W71;c^h21&w@5}~_0LF3t8$lB{n7^SXG_sidmnet8}B=!yptLwj8
zT~YfiiID7rNZ3z1ta<hm<hC4>(Ik^Jrj+BdpxxIYv(%w;dd=p^>>iZSSWVEJZ<JYl
zqb}yjkDBJ2ha0p@cCE-F{6`kqs5C`>V@Ov-i8Ku*4JrcpsGW%&G^258#RcXIZ6IIr
z>p12-=ZbM+-ZcpQd=OeT{$D^G@<><2)4W$aabY}<T$@pKB-A{Hq5#Bn3tV77q<euW
z@=%2a-#{yMGo{W~xKPO{+9XP?XUs%^LwA+BDqUrJP9<u4$=5d&GA=B1>JX1_s`d%d
z%JX|-MtItb5ArK>E;cu<$SW_mj4(_pi8nMZ&C5*APf3l>Oi9fvF*M37j<3i}i7zfm
cEGl7)C#c>Osy;bCuOu_CG!+2k(Ii{|0LQI{g8%>k

literal 0
HcmV?d00001

diff --git a/default_7918707482921890665_0_17838.profraw b/default_7918707482921890665_0_17838.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..8f6ad91acdf828d78f02402b905ea27a1af8c476
GIT binary patch
literal 398640
zcmbT<c{G*p{`h~&uw~lDWDXfqri3U%*d%iiGGxd+W~$6#i%iLoWS%mXIkV7KVw=az
zvy?I`{663HIrsUk-~C;`weEGDe>$D_`#jclJzv*-?}1H_yN!#xtK$hd!T<h;^FM#~
zQ~l?^{O6Cc^Z(z!BmLXk@&EldrG6iu{Gb02B=plH1)iKdTO#>s8}NTCr~dOl(f{Yq
z&&3a2eki$|zeu~0T`R8iH}IF~<^S`Kz7r@#CibQ|t^dAYeX>YR@?ZZy|G)pgKL}y}
zKvh}nqOkR4leNj1(q>)}n*GiHtP}R{!T$<(IJW&?3w;u-{l}F=#>tbGSBubr_6zw%
zf$5K4QYvg*;1C)Ux%`175TOHK&qq;N#W;yRkspD@g~RPQF?oazd_7NHxlp;x1X4wz
zPkv-25d@(SI`H+}nN41%>Mk3~6#10=J}=l3_X}BPVkpdi{%lFSmr5F?R4*5mS55el
z-K_wj17FVuYpE}FJxNc)+dhpEieE~$fDYN*6zzn1LZNdF#a3x1`9*$&4!pCFZ!2pC
zA<YDu-r;s^zh&p<Ph@@I`<e?O^L<>F+|Z=-OYQ2T+o|P%&Kt3LUT!k2cH*pzj1roI
z6<34~d|rdqr2htlJsqJw+6WzZ9|x8$>P5W$>73JcM;jroM@$GEc%QBd_PT#Xw6`H=
zbOWq2-`3=`ntM~WowV06T8P&?8PMUm`vbqhH>^BTNpF)EpL)&^p+f|_E`I)7nZreP
z*h7v8pyU4ZnnY8Je=X#o03CW%u<=9M!t^Kiu?Ks~!i_UOz&ca@pu0zuR_hHp8Guf<
z_vtx-Rut8&lUA>C#L#DRK*v+&6WytRzC!5!!wKj_k{P+_-?Qd}?msi@V13qg4LUDK
zX_N`BRyc)><owA1bo3tF$MV0V?4^C@X2v**5;6yLR+oz~E>Eo!ili!L6xO>HH~}5v
z@I0Z;Ic`VQeAMgmJzn~mHDrC@_l@xFM-Ad)cm9Z!uyAYA<A@3Xoi9966}rYx)@T2I
zB^lFlVs%C6!0$i%+lF5rj4^7pq7UwOb;dssLFmBu71S&76!W(z#n^FzuKI1^$o?v_
zKJfLBNv}G@rHm3gbI6jEOUjGYB6Q&E!BJA>Cb)fCt4RImCtGYd7>Lk;uP5)3=><kY
ze`3gy2Xrz}cPrOZ`t*PHY&#7*R(>Er=)m`-QE0BdsbUoqX}A7_W%kY*ZUtHA)3Ez9
z#}Li)$jVoDB$jV0P*_jcCL?s<>(OWIy@wX54{r()KNl#Zv|<kE&>EFnO(k4dg3cj7
zLI*xCw*uCfvvs6L0?vQPj5X8zR+f?Vfjjzg0#`&h?hFTy{&cmaA<HiSbW+JKd@+2o
z$OJjIfR3?lrq0f=?I7gvBXr>N>Z%F2m-8}z#r6(k-&~{L=H?PupO#FUzwzV@AAWk;
ze&0Hv7b^#J4lGZ%zBfw@h34go&>@4J=iNFJ3JJQ1TAIhfr|G?qc91&o>mq|Qa$#~f
zPTHJqF6;cqcOCKw*8_k4vo-iO)xziZf9KAG(1D*rDfN4S-^JwL#{Voh5!fcL9$f^R
z7yXvY^|$sHuM>Xn{5EaMN}mkqkkoNUSiF`$nVwU>l$j^AX9(yFn|K!;d6x_@mTUNp
zR;@EK0XoHw+&QAAKj(!9^wTZvV#G!lkoAGjU2ZO=utkA`47x4~5IXSJ7v-H*dE3uN
z9zfRx7NJ7}JI_X<g-=qhuV|&0)G<n;$6{~@9a5OX6hJ|66wf736INuDL{2ALi_n4J
zH?CqMKW!S=%QHVJcKNBo;2wz3fuHA!%YSo^d=6)^q$K?>-6-PZ5jybo7@G3ml-3zq
zt~KkUt1Jy+L?LwG>skLS9oaeXl@!O+Mwe!x(Sn;tc7EUvanEGcRL;8#4Pi6yP%q>-
zuz*g(o!GkDSEU+{3@eZB?yQ<&0G$AG^slERpOsHmnY$>iY)_*QI`Ga?%NMwu8$O<-
zeLu+*@cFxdpF`FMeqDIa&`yxc<;=M~>PQ_7D=sZZ=)gPA5EYWVK6mLlfo_V1i=*O+
zE1*NoA#~jMT)X1vS<~n@72!$|K<66kYd^|zld8!ei__>$RLkZpvOe&Ajnds}xRWSu
zE=x4{i1EXx^W}gJ6I-abrqJBsJC&ZsyN{)^T@gC)c})gjHR$y`tk<*(b7xPtuW2K6
z;QMkK$Y9)hs8pRJpdA{yG>Jn4Iu>?|t|D%{X!ZOW%5U>oAMrC_oz?a0PCtH*7YNTG
z7jF;_@`wd=+!gNZ<di?0Ak8fOj(uqHSsS4Pzt0c&CQ|9W4Ubh@BEj-LYgPnZ4-P$e
zL1mx%pVb?|x@i;EW~A$Z&x@_Mko)Jf=mkm4T2=GH=^-@2eZd{mP;#U8s@a-i-s_x%
z)DJE2(_r&j-<E$HqtY3phl;shU)rP-3+T}64Xbu*u8kHM9oM^(5wd9mIv$-v1FDB{
zj(7FkukKcP*r5R(=Wxn1owphv$=&0p|MCZW89xQq$G+s#UFIhwVcMdsbh=*6fw6#2
zq=0mS2OV9_-jeyE72O<{HlQ={Mk0~RJhHgVq)VyHh5&;GbZExT6|SxwF$z5F+}35f
zY=r*~)`yB;Bj))*DRua-9|;@Wj@hw*j-2q_di}b_6W)70nw6}9PqhIZY3GrscJ3Lr
zlKoU!y-!7-(16Z`@2WY}VNXuW^Yl{Wd_Cicp9Je8Rz5ZJgeOAl{#hTTws(2yv4D;u
z>B1P%pxR6FusjaJ>qHXTfX?~yq_y=y(k{)$dbg9tNMbagv;5m;d_iN#DWg7+@na-y
z1AYRm&t@#2mzjCPTiY;JO-<2}E3tr%Nr985D9$-?&(=}mzTK}RZ9r$~^_6ftl`E$b
zTds#^lIWa513E6>{*BV7x9T0{sh|0(e`yClj;s&-dBWC;wbx<f9%Z}XztoerjnB&g
z9iOtx=i3iz=4p5{p1rf+42ebPz#n&%PwZ|`<#=DqE>P<}>!9YT4d_tKjBIi=6id=Q
z`fzLJd58iU(7BOl&){+O+N1YLOPR%VkxTe7WS!yr+B=;&AUH&nTqrDVk>`1(DHhOC
z8*cxQ68DMrFP6~-$5Sb!4d~?EpiPhwj*W(15268`w1m7H8yV8vkb@ru>ysxCDs7yY
zUJSjij78|cU+-A{<+ES@eDNUD`8=bHiUoloLI*yt3mpO7cl~R*Z>0;e?{WFKGXXkz
zdCh*$#eRfCuX9I7!1@^YdEMg_>~V!&=OzO>&rCFy=$X}zuq+*t%o~wWhJen;FizTu
z@Ruvl*WZ~CI`I2XYX+;Me;ryJa`uOj^?^Itx<%Htgo3)Q$}1wu`r<pI2p#y`2Xn4|
zqb6cRK~6HD6W7$xd*KJG59AmEI-IRDM+@}>{gA^1=zOxhTxNoK@&PA19dmdvmpVFx
ztTViit@XD$K?Z%r{-Jk_WFmXy$p{_z`*p_Ln+=YNNw@$9(-$|tay++1=)l**(TBYq
zeIwjWyydkr4@F!dKcEvXP4b|LtEp=L&GE<~)xy=4L9jl-9b@9=*Z7!)&JNZNKNu%0
zK<L2x<XlPa>-e4RU@I?RBFN)#)(4>jzaNs=Hs4#=bY!?k9ME8hlGK(*=)gNa)2So2
z)3|IjF(>5P9be=_0O<J4m(xWBuf38axGTrY-l*L&0M@ydYK>Xo!Ruz~xBS+Qb9eE9
zfR0B!zFix8@<3ALvdx6RR<1lk2j00{T&s1rLyzRyWLp4TO8Y|;LI>Vi_2BOFiobM^
zL)?#WSlaLoTt8SJt~~bZ{@4#QwlV9ZB2VvxU;&-2=N3-SBc@{ciD}4OH!?XefR2lG
zw>qV2l#&A@za-;X)rTlRhic_wDJyE75?@VXxApVkA+8TuANbdI6bn}lF8-Ck8Vgo(
zX}NI<Wgv9m^CFtl3CL<R{9LE+oX@Lyf-^_xz^`}I(x_yVUX$K~Od{5bh6Z;LgbsW?
z<Wn}5dUv_bKL38`d8jt6yNL(uV|pN?YThtvHfAwu?dg8thePPV*Rw=fZ^S0RSpOuT
zwznCdei@6<fnQ(y6-Ly1QnC)$+KI-6GdsJq5jxbcucyR*R&NboV%@b&6ZE=NK=(2b
zp#$F+Dl0mu?7H=UESvKBVog+^JfO2QOY3!sieisDpH8BDW{sQx(2)ySAe-kpn)c0(
z^bJIx7i{T8Hh1{Gq6ita-2x@wDL=VFM)WvyIS|l!`4rb1Z~kCbB<`Ks1Y63WJfM?H
z=3MryCb5!Q<H(Xd*ddbu&{53Kl&;n~lP2`y+mbbvzH3VlSRe7lkrzX!CO8cgewpZ9
z_0tVR=)lkO0|DxUum&>D+MZ{cv&!TY7=#XdUU}t>mak*zBrO7beNE5LmZ1Qhx(eBu
z>fv)%<_0!ZRrlfpaNofCRB5tjO6$)=DLnA}Eg9+g2n*=g{Nso#;q|EgKE|&qXfmFJ
z0d!`#n-fAb+b$}<Okg}C;QAZ|=oCIxd{ykO?AN2Js6zBA{Uxp&tPclkt3-GSOZDdf
zaSJkoLPjh?2mW|L8#GmS=akbbNy)mhrQhy=Awma!eh9q-9v3_~<&q?-IJN&a_B0bh
zhZS~Tt!!v~-;l25|GALX`0`!;)^dand_Bobuk`|xa|VAD$8=HmRhPK}I@3**vk_*m
z<EUa-coe4nT0{Vy;^=#1IbmK&bSIZrtqy%GH@||-J#yOp4WZITqIjK;%;beK+j2lB
zir72oK8HDuSK_V63l54YSA-7y{IK6y-QbNK2r>5lq&wh$XI37e1E1GV4RSukUTqCt
zc~$4~_WdsefKEu6C3(Ll*{gwigXh^g6a+0_z&Z!S45$j_<zzwcM+E{pxjeHul~uOW
zkRuQ11Zo&g&ozvDF>FYvUONsJBmi{258V)mW@U@NXVgx#FD)j~(goJXqJvbmN#o&d
z=>4cbKxZ&egz53@>In3Hlsur5ep}_~Yf+*r(0T{}oriX!fl4K9oX~n&aA1AZdh&gm
zQw@!jDS!OPJ|NQ%1at!CueZxiPbol-JfL%ZK&LcbuP#-Bk3u^0`5j{dK*xE9cPjeo
zW-|1-o0iXDedeN1k*B-l;+?}Y@rzez90LIzo+O=&lx41ZD~AK0tzN3L@_^2b$L*7^
zF6fG!H`eCZ!e=lLAavmGADTN5Zw)8QT;;u{L04LHMPQ~ASs(cGI=0;_!zIH~Nt4Hh
zq&h(h)CC9~_<hw>z+%o&N<x(*!nxttvQo+x&?#La62pIFaoNr56Xh18>gGr2pka^i
z$LQl5-X=R$!-}W4J~HR#n<I4K`|`GmF6z8<L`%DUDEuWwV1pCTxgPEmT*m&1_(^65
z^Svyx+cO==<^^BRVXm2Y4AwOKmVx5x4=Ml63_!=vWZ7;cUunv=AncOp4P1;lptD|N
zkK@iJcp4Q(bxBH{j)4=<`6_*p=4d~;M~=ht?jc!l`Aj=lACcVKvMKvy{dUcoj&m(J
ztQmmLzx|0j^AGKRa~j>MwP!qY)*R58p-|bM8C;UIU}a=;eUZk-3F=_9H7vgv_|_;;
znh+4whRl2d>(li9Nyw>bikT0Ee%qws2gezJj(Ec#itWT5hr-X}%w4Lo-R6J}_bOK=
zK5?^E9W}6)ldW)#6VTD+NKo>(xI_}Ep{~m8JUubf2G(b8t??vl(6;6AI9=`Z#&TB%
zpp!$DI?_^)^1bzP?)$>O$0Ftk9r*oul<zJ7=z|+9d2Dv>y<=un{0JTReM7HO%8^C8
zjk@du&tX@0z`#l?SRa}C_sK5pI;+)F0t!Y7&JzWIj#;nItAcjk>pr;9@n5HA{A>|A
zDA;|TOR8S~MXuaQRol>w-PMX*bA%4Ok8EbT_D`GHF!7h-%Q~4U8Jq|m`0JFo;yH1`
z^3POmt{T!iep&A}TfjPJkjL14zF2)AXDhsHJREta9MEC;qxS6k#4w5NZH<y&XG>#U
z5jya5SXE*5%V$Gjm70#0c(+dDL<*q;@0``)ZqKN-H=3@KP2W%WFn_-ptdFhXvHKJ@
z>2D*JoypgyZoU@Kku&~4^LBv5dwN#*NzL*bln<cOBgAq_k*DK~(sEy~K0~&g6rdw#
zDM2}v#3b<1<Jw<$vbSyfP00Gd=ap#3{qClTKV!e+pT@c?nY=9s9r(N|QZqVb)AyUx
z%=$MK8)iQQ0y<Lh!Q{#<QRidEIa&WueEcR4=sZfxu0HVgbqzSYdiM?LUOoY!<MQy^
zO}QzZQI>gwPtDr0{4I^hI>Y<SY6U*?BnZ@>t%&kem|Bks1awFy?<Z1D5x;smAKPc`
z@mf+I&<UVRqBu*_LGy!Wu$E)MPl5o@5hS9`RwLLIb`ml<``CBsN=pM+A4<O7lj=eO
z!jJS<aydf?g98DbvTF+wLdIpS2WP7zEn*da$^$x|7<+5AXh`W9%|ghEo&UZd0CdvV
za+IpN((+CvmEi)`(i>Xp!TOZov382_%qgKN7flYko9+ezI+46?-;92E-=n<0#WKcr
z+d>}DaVhb#AJr#XjvgvvPdJ^~OaSO~YZW<IMsr-Qv2b>{pp_xi@)4|$<%`Ja_6OBJ
zJ7&4W_3mD!4g_=>D`(rzsqlVzaf_?{?5#Z!c|a%A{qHcrvsX7yDeYJsp1Fu80Cau}
zzPjV!!me03Xm<0B*A?}aI<P*k#_s<f7<*NqLwlWqH`V@OAfTg=dMA1(Jw|%XgWVKI
ziMb*V=#<p$#8+;#Plh{|=;YL<4iW%5#(Y0MzaKX;2oET^r)Pye-BJtI=j8X55!arm
z%9FEV*3Y~wT>=3euTS&-KD6(JCzN9t+7_R`l?QaDbJg<ed5oUt1=z%GET@wY06JI0
zq<Et01F}5{UkS96mSwiofb|(|IwyR4^7HTd62^aj7jOOv1a#_@sl%JA<|BB~4ph}1
zZ&c+09arsLK~goHrXL5#PWv3T)&zhKBQd75ZZEX0M=j&iIwd_zOEp-Zh7exwV;k?v
zzd1u=m&Na@1tN6dpBJ_{I<l#2aJW=n^0d2tQuG9=1Ao4;F)G~2z0ILW5V77D;!PzW
zk8nM3C%u1a+SaB-yHLj|fuuL!kO0u}TP0rg4<47MnfmwQ@Er?dOBG<}D?i^qNKP0&
zeQGCNyFX7o5YRD7{d@ar<B_9)Tuw|@{EHcRK*!Sf?5gGo0cmDP-26RX<1+++j>&wt
zQQe<9moN57Ay*3Rj$10h`kd>plJQ2lavm%S8e+e)eG3G15@lP&s_Pdn1~d`GI4yX`
z$^$wJgY>7huhmiJnw06|Pi>YEAawX)uirV(zo{WGrBsZqundU);ZD1c(1D+4nsAc#
zEc(3Sw(}jqciw$jtOazg<<buDn2vJaC6)YpI>)!#2hid25VSTvy`MBn%ieS5poLTl
z(6Oy*G<flG#-vL@A&^|7`f$Gj?EEk|^aq{x@S56j>WSPs8(vup=+G!Am02^>aC34n
zE1aJm^zs382<$b@I^JnL`ua=6u=&1*nG~QCGtgOCctCZfqj$6LllQ9s{s*u==WH5c
zj;|yMm`7_E_>X>hUkm8;=2qcrE;xU`ly6g3%`sx<1L%AmD)%!8+ZmUt{_fo+BUmN{
z=meBjnvtE{s@jSC5a84D*=_$lSRc|>JD2S*v_-BqOmdxdx7BI^9g7)4LV^1jAH~J<
zWFpI-8GHbp(=tz&`Ar19T0cuUPozEOkOFj^_5!5zH(wkMWTN}FA};;iF9+)*vvGMZ
zF~0I?55}BpfB76|Euf<~ueC;^@~}Y?J&N9qBp~wvbcipz=zM<DPnLW>QD@V7m0AkW
z(J|ZQRSFU=FlTN%G~^r4-Y)~|Gm%=PV)a)MWB-tqVR&BRpcc?+@w2bZzEwx#%z3$W
z*6mND51@ncS~oq;mtNM2=jwM;m0OeobpDK?ZQmCK=5V_lq^swl;`U3y`h1T5JV4_|
zTYh%5Hm&1hdU!3ML+tOHtx31#-&!@DMIhFe?gQvF$;YD3iP*@zRBs@A=I&T41?XTc
zhEA-XiDD0WZ*`o=EFbTefc4pWb~>s)8(l$G-!Bp;{EM*`(0MPt5_XHYK}e`P={HyT
zc(f0oGxSK#urpQg67>BNQh-jI(&_uR&H61MXTKP%PeABOk>`+$A>`BoI+?1=y>ffZ
zL6GAE=s2acgoSxC@81bvQI%?S)ssT#z+X4LnCuH@6Q>*q%?<wYYxnpVsRMt0*oOXj
zB#_TeL_|!IToL<acE1R$b9<AgdDp3$GU)rPY5|>jrVXXjD%)((&zbZ==)gZ0K*XQ>
z@9dMvedzm<v=KV+K7=+5RUiJ|c7(nk2@U9ML|Zagrv>b1kO$wrayn-X{|>D4-=P<;
zowhM)Au_aV88I%Jv4BpkGYy%kRoN!wXahR>79nw`B3lX}2My>rwGT<CuacaC9DE^I
zA5U(r808<EyO0wL=vWY?cT^_omP3v<prho(?Y^1ib^~(IfX=p5daRN_`wz&$7l8HY
zjNI%pO!K=5IkA9F*As#)rhrBt$k7IL$}Qbm2i(+KAqNfUh?mv(O7(Z8LJmG3tWR`j
z`?GKPoQIGT3+Tud4*ywcd=vvY+JH`Tn&DWu!bLU6K?6E-Tjg$qg5*4qgU<u&6R3>;
zsn+Z%2|2NV&Rv%CC$;h2c95eD=oFA0zoWm~CI~rbK!@#@%^QaY-4w2j_Z(YF`&RL}
z$ojy)zD)YJjAx31_`gmvptGFFL8hTPzYDF$9MCa&sK$CLNVTZh-OS{}YGw&PLI?gh
z$T_R#Q*iU_n%t#=Ov3qciIp5=ec<1pX?*R$wI_~>r=Xvcj6>+a*Q20k=^?5T;Rrcc
zKxfNSB(II<5f1u!%NRh%L?DY?qB{LI<e&hZPX^*f()r7?(9e6vWh3hh?<3FuS<K4O
z$DKLiy$zXqV=@-daTqoDbMH>b1oU&-F$f*_bum!=0u%a_#dG6gD5k+VB@_+l7<8O5
z#6{~%L48KE!1@pg`YFz)?y5uUNk-_v_vJj#?MNCy;uI1et4q~FmSqm;-0kp96cWOb
zLJmKm6UBR{fAt3G6y$7XBI^U+*8^>nb3F=)V~|q|=yZQux5T{@?1!8{K<CD|cX&B>
zY(C^*03Ch22aD#4Bp2kM0iA{#pMuTZm08Fc%>e6sS0P5{pVJ`|<YWLkE?;jdaX2&4
zLyj$=lh@!Ke&5ynzkNgioz}b{TVYif3TQq1>0o_o7n<FSIP~sAP79!O>>9-tt5IqN
zIaol)dzeq!_x?F5$k7IL{(YPL?RedP2y&PJo$dy$!{jaef9F2)7OXR8Or7H~?VK32
zo&rE;%;rx;ke?O`a$EtO(o5fHJI;r)K)**r3ZVmk9MlXAH_*LM%mg|6X~_D(ovTbc
z*VCKrQz54o&`FU<Wu1tKIR*W`2_HabYV_$Vc^NlLPnlu$n+i6qQh<&!=dX%ja<5`&
zJ^%A_Q~vk&F~Pnb3I8j+k2Z~Z^`5No611LLKu6hwkNq;gb{w=GA3*0OVVv3S&+7f!
zs+rJ=%?>FkKu5FZJ4W&&eGKI6r-Jp#N>E9+BdGL-p0CydI`(4C2Xh&pk0Hkg&~aGl
z-`r>juZNzmN&z}twRIy(;^9k>v;P{bkKm$Y_q?iP8ua^0Y5^T-F8TqU=XSG@;{)jM
zOVc}H1KLTT-+Lkj=(xz8IFHLLU4oqb6tF&wy@lt3J#WxMzdxlG(D^GbAp6g4ff;gq
z03C%4E7gy_j2io&i+>UXU3Zj1=)gZ0AnZSGd!6e(DdeC4oslq!zj87$He(deO^X?5
z=th&lI!i5vVJzw+V(au2g!fVhO_Ko~<BHdR&u~VQyXg4e89ZtUG(_mY-^Zr^t{P^P
zFx?J0A_yIL=U%5K@utfixlkVhgbw^ZpXKi6TWNXj7;;*YkadQ?zG$)@|1gBFTu9XW
zm7Sk?Ll2A4fv;!1T@`C(O#kwAGbhean=2Iq=)7hv`EC7xxFvEoMNhAGMg;}v$gTcF
zRYm4CRSi6)^dMtd#3dr@1E0Gp1>2)*p<Fu=yl4Mi^N9JKfzW|}4(P3~|DzagF3PJ9
zNQ(3BU*t?i=)m8%xra{CzzaMTqRWr9+zg_!^+D*s=fzR(@_pl0U&6h2ns0Ru=iW*I
zI;@>Ft(k(hp~`)~ZV@MYf7pM8tTTK)AJ=DgG;iX#looGtL}ruB)B-x(VoF<yY0U92
z*ajtiHkqIM06L_rQTFPT0YuRKM+%_>zuvW5k`u>Xw>d!f4HQBLKKJhpOUA{-Q#RSR
znm^w6>}^^}0PB2?+4ou3Z6yhMG?^8PS{rKtpd)_kq5u1g^ni>a(Q|LDA_!~|I`Hd@
zIVUdgLB3bl+&f*FXVH^n@(3MT*c0K`A6>=klPAAJ_d_f~2mbY3iB8!TdcuiVD~8IO
z>!w~*NFDfj4yo%QDegVm&3~=QY%4C=ib1#@xRYBKdp1b6j19U!qYygqbJ+U*)s9>L
z>{saiJo*ys{6tk2lenj&s`9MMBG2fl^d|#49G8|-No-}y4J-_;jgIds7$S7w*M*_m
zQJUss#a2_2Gc-l^vyY_^I`DI7F{Ny=tVrh$ecc?5(1FiuRQvsNKfb?j0!FxtzC1Oh
z$Hyb<3||i+i)cw>X8!xXpKbrqqNT(N5IXS3_kpqH_-%IFc-%&->TGt}6<34~d|v@y
z?Rmrp)~`U{4<Lfjf$wWef9H_@qTkyU)cvX0$rd6MLI=K{%bqj0f@0phq*-s!q;*b+
z!Nno#40pIk`!I6@9pvu91?-n6I5V(-&hK~ShVijKZhRw-cJ4m^ND~9-u>G6p_S?I;
z`Yy0Car%Y;4+_wUq@FbmaT6`3cEIr3Q9XW(iv{bW<=(?Xcyf5<p?*)S+$$<METH4?
zuX0n@zb8yfE@rOr;zwl+pyMH`;CLnr)lc{F@i`8Rv?dDBd1dy)Y5CCZ&@Xm3;aa_)
zH!cROk4hQcYO>?)W5$<uneE$dlUP8<c3Z7UpP!BR^a@SP@frPB7(hpP*5FsGa>7!W
z_`}{`sxeY1K!+uj_#v;i_tCgSLqt}*gbXektk0c%!B_2QABOglA=i5=j+|IPr}o~U
zTGy=F+{SER{Gi9^0tV1g&=W0aj#eA~S}+hxe$B-X1?W_W4RCebmHL)GJ=Dp7&3lV`
z0oEtWxT`58RjIQ(rZVW2bz3<W&^f35Iys6o-qI*eTJp^e%n}CBVb!QVxJ2J6ze_5T
z^d-by00rpCPjH!iKTW~jmYDzNlZ<RDE()xV{1*$CE%Qy9v~Ol>mds;)SU`tNdhue?
z-uF|!U++8e-K0Zf03D9+`lI6q7R4eeE^D3S1=c7)=S|_8f?>;_n#Zli=_Z1*s<=q7
zKEXkia~Mj+G0UHBzpkh7oxuV+QHs0W{!uhv_O@{MJ74pYVE~<a`+E7*kPGCV6?|fT
zA}>Z!fX+<c+ile^Ddsb`Y8MCxvRZM^!TQ*R%D=sA8Ar)lNP9^<MsfrT=rq2>zsR`W
zf4z~NoBKhefDs1J*(VK({6gn_i$JN5@6Q94aulGWKY!i#S@-<37zfdpRGf7NE&{C2
zW~4W_*mdH&RY#MjIx~)0uz-$}CDFF8V$O)@(<1ZA{!20#K<D~N_pVz1Wv_doe;p^g
zo2F2J4nJMjf<(a1S`|6h`HcB<eK;&wpWej)y`ZZXod~3Y3*XXOaA5%*td7^qer3k#
zYriHq<D-oPF@O$V=LpN04%^LH59~*qx9(;rKnHy_!hkDq<FbV1FQe11V>EE#V0{{N
z#YU(y)qn6D&n0WWn{>niI{VhYg=d=&S6vpV9%CtG9$^3-L6(<m?D${n*OEwoilp)!
zq5z#Md5;g7Zr?LnH@C`lY9gh@g@N@k!m3fTW3KP`n334B2d36z0i9+8Yf75v`<IGD
zM;F_gs*Ev!&Qbd^56yeRB7&=^y9$4WAE5x9^Iwvyl-t-_KiYL%o4d7biVFqnlXKTG
zqIQ9=sl2(ri_0rj8w==!P1wji;u$TVlcTM6nvy5M06Hz1Bx_tl=E=<3H$-?#el4N^
z9Swa8^wqHd-ObNG9=g$7P{Ta~>vMec$4s1@uYIyBP@TIkstpV1v{L=)7yK$K>6(MB
zD?H2UfdO<lpN+muv81@RILEe{A!f0G0(2b7%gMzfFxs!x^*g;@aJAt=!1|1wuSPXs
z@uqjtnceEkkCU)~PA5;y`|Zhj+0?f9b1E;1$1#9TV4}yL6z-Ai+~&ciw3~K*C_rbf
z^UOqDlqsLIoJx81hL{a57_5)Hy@L2(W1cQ&60cM8a_vvCfDRS)V*kybU)GfuE*JMt
zR7PR|od_<&ps#v!J-R-pb`PI$Got{VqBTSAM*@Osev#C#%dXjf!v%r$amP+CJ^ncJ
zUTmp#Qj6JP6btD1h3KrUe7;&<_F8IkW;uBu1L)i(Jumquz9FrvH0n}^>g7Nbprdx~
z`@6Ed=OO>5w;C_|jSb=g!TK~4KE5jPr#O-#81ry>QJWJB=sfb>yHIp!W0QKUW7$H_
zQ;7j|lBACq(znmkG}!NlMt;&JLIFBsb0+eF!3T-n;|xIp>H-D00I)u&C&a&7Nffm{
zd)9i29Qq|<0iElYZ|@~N3v<wadnF-g-E|uS=+xi@T+du=LwTov!i|{`bD;no8N;5J
ztj*-Cw?(i+kvGq*<NU$;EYy#4ruqq3J-B{wh;O{Wiv@Jzb3QhpFYZ<Hd<ei%9(AKJ
zfR6R(d4f2s2jx%GNH!7~Gkp}OBUzvJr{Z)}ZCfV2pCf}H&JV25p8BK1`s}#u`m*9d
zG}VV>ET9u6p%%KR)BD>~hn+{e?e%jEpkt$2^k@3v_1`5A9!xpE)U-tbI@~#T&_DXS
zS#-XhT`%nEmc%^;>(gELoT;J_g)$yzox4f?*AolqjEgeN^fkMh8E2N*U8jBMjsbLj
zJM^&#XZxSJ@3YZ+N@Qpe1?X&_JNVPvL-&NUx>(YR#IPOr1guXqk9`t0cXQzm&$&h4
zl(jG{pd&#&cA;+0{M%I$Zv7jJnk*PV$3jXX`5-HuNxQL=^B`no0tM)de4{f7Qu}?&
zzwiZr>&{DA++(mlVr2n=-HKwg)>&IOc<tiRSU|_BrQQlhbS<ORw2&I#RrnVJ=s0Za
z9b990#adapAwy$c=Y|4w28}+*O;r>)EySJ1=uW6V!TEyqS++3L_SNn%-=}UUog}%L
zf(3MLdI)jo`uhGjP?SbL;nHlv06O!J7nbRKD)zG9Qgy~n8quKu9TJJT=T)8_bhd6G
zW*avy1>k(Z`rO|Z95%XtON#&9!>V(o#dolPPT1XpR_z)g-J7?YX16-NtYZKjQu?3m
z3l{QxJt0lbCE<BE6rkhP!vDL|gr>hbKqvJ{wkavj8>|nxZ}Y67f70a_m%7>K)_z!G
z0iDMUEFF7wskT#@e1g_LCsZ+jj;T|N!vohJn&)=;8ZIQ?jYk1Gp`DFEi8$#eQQSqT
z@%@J_I4`h1rjLBj-M-RFTPmi`5ce`h9}DP6%}3O9NRct$qL+N%_3-j344{*5bg6=N
zU`lW+bh{<!^llsq(D|~iFPo9?&=KyZaHQP$>Lbn*tk2J^`;NJN%I8?G$0z*zed8q-
z(DAzA?Nf4dx-H_pknz1+veg(s=k|<aZCQEOV3f*~XkVt`BNU)Ry|0w}iO|vdLIYLQ
z!vpgVxJO`p%DB>b5>cLJ*G>(GQd-2{#{xP!dJ%tQf1YKn#osBAe^ASd0d#&nw>?_@
zWi=!3l@&n#E7}VM=$O?!)U!|_PD%bKowM=LR37I6)`v9tX^idbn>ruyL33evc}pyy
zGg;e4yR==-Vkh`=EXIGx1_S8yq|uxqRARfmI`FOE<h$@V3ef2y@TwF2aN$c>GVwPn
z8k=i4cd$OClq=$zulv+XKQ0>wq*SS30iD;3t{y0(yq}HpEngGb-S1-nou(M>s54zw
zDjH$^JY^ITEhs=|*n8t#&Mf1KCq9p9GvU<&&JC<j%TC>d`gsK@7fSJTS^s7aETCgI
z*Rb&P_o@8I92)|@w(`#yK*v8Z0CTh2Q>Aj`ht1CS*&!65Lsj{zru(+FD1UGH)`z4+
z6PznppBFbL{P`Jlujmr2J@B+jmcar#EpK?`u`K$xZ|#yda*Qj=VgQ|6q_-62k{@a@
zoxUM!Ir6<11?Xruq|d)D`Ql(NJw_@xsk4G}0qZkxpE@)wL`5=JNrj;8pSCp?(5cPv
z_1#D~m&B)WGwbku$vg(o$uc&1Jo%-k(XEF|GAGgsivn~S8#CgZg16tl%Vc+;svHx=
zIfM0yJZ0NRzmv)NyITB35d9J!3+PO2bTa(${`Z^iY07(D$GtQRpmW9caPG}^af1J>
zLRPlc_#z6>A-3;cjSk4sH**w@j}W=6f^!1vqp3{dQt&B72v5n9MEQen1Pkc&#5F4u
z6J8mRldv@Glhz)?06Ie&D`%e#Y`7<e@;_-mydsYRbXMM&73$Jhy-()KQh72?Vu*7D
z>%%j0zaaK<6lWB^P{=qov>FTOoV)wNx4coAt~;klL|phz1qRT`^Iebq74+#0Q5oTl
zqcmzt6rf{K@$9x7JI9vj`JgxI7lsLN4q$!$4WNt@Z!`2R{<tb-B+$o>1$5q^Y3V~H
z6;5A_-Q#@6Q>lmnbap-K9-JJOS7b4+KY3S>g+&267gL-DAFIdjpOTlhWumxo1!oV|
zhecUr&`qtANxv^iKk5_zG8WMJ6sZ=37YLmzZ}q6H3Hs@e0d!JROqeKg{G~aVA`%&#
zK1ZPdo!rT0*72<Ol;7CScx;U5TH)-#`e-GOj%Hr?C#}y|!DJcTR)Pg|q<`<-;(Btu
z;IXrRR6XI@H4LDmnD9?+)zy@^XWKhnR~p@o0(52x()=IMaJ*58@<2}vxeelM!TOxr
zlG)7*VI2}yj~3sSsU*b$I$h27O9l^R+Gz)OlsZ+udSL*awWQOuV``0V)cWK#yj5XD
zC_v{za@v!gT&)Xt%SgLP&Yx$+Jp}7BeqCY8B1>B+mGttQQb1rj7SM@X%P2@N5Osaa
zNIM|m`Thw8&?&i$_qG3>w1^4swT|}WIz|CHp{hCSq%l5R`DQN?t=tT?a5i9l*y+2N
z+V4)k*qQz<UuGjTfdzC-h5Bv8zu!2X@4jWmsFN>*LFmALp1G!9_$KcbrOkO)FZpOX
zw2VB$J~Xh;TYaE!?=K|MGR*zrAYw{Z>>7yBfqx#v^AwHkf`KUU_~c1ys@w$L5TOJA
z9LI_WewCKD#c_f}CrO|2$vhK62fm)$e|IK?mP8mI3#3Gxt>JRpMA(@c*5~iT8ctdg
zsdjTKgZ|+KTWU^(>w$lM=c|Y!TesiU$4T@qZHZLIODhQ11K*e4wQZV&k92E4)_zu;
zHP_B+LFm9cpR+v88}&+{>w71*Y)I#yMj)Vbxr=_o;*Lxtisyk$f!<M^JVFQlxwgqw
zH^qDfDaKDN`W~;(M@6F%I`DlxPu`g&OFFEp)KzlQe`%S5w?=lo!{@c6aW{88tgq*z
zSA<Dp`-|dagbsXPmQ{pJtP7PM3xB`9e)|3A|NN#AWb1+d9(gh69jENYoXPt#ZCXqO
zC2t52_JOZw_6$Lqz3KHw;i`U@IK)omLHkhloF!g4t`?V(u=4x1lFN;>54>~H;qShc
zAG`|NWiM$&4fN*C5%z(9e$X;2>8e|*np(LHF`*>2@{T-02Y!CMu4eIB=sx(${&J)w
zsBA)<0HFi#+*8#uRJU);`Au@<R?&O?t9UD9bBFg?5OHVgyt;Y5cic)z5cg^@8KDE;
z7wY(1M?u&4pin%QL9mdFsUe`F;%hKOz_80gVSGIE3yoE0Lg>KvRa)+8XEymM@aFK7
zj~58}AIw;S_2C_qb1+MP$Iq?4&i4IrcT5372R<*Y>NZhq_WZ+)NNozg&4&s;2p#yo
zFkXpEyI-y=X*t}q79WaMl?QYd(KVp~!bO<+m{}DMtMw5SpmX5tS;i)6;bU&By#CmO
zydD1ltg~B?l+c6NbMzHn&W{<wWj2x#IwY{iQ=YH{+u^4>CC4km@rGo(X@LkG`1O9T
zK(_d-OB|)O+m0nAewxl4p#z`0>6hzU;*A%pQ-aR~#u<`Di6C^~*B9@8K%aGmyV1?r
zNac)xKlPgy$U4KFgiEx0k$CQ_Mi--VNXz4|mIFHFri04G&bt#TE+WG%xTXSEKqu6I
zy_Jutg(r}j+iHrgv|R+D1MjSdetbipRzK@$LmEF@xqJ-)LI-|*W$%=%8Wx&Au%o)_
zzR?n7iZe&n8Sa>rD<<be?7D{ME69BxSICM5bf}D<Uor|TX(mA%Etj@PR~RC6;ODvJ
z{fCUS+%NQ6=}Pny!tZUQ5IXSAc4wol?2MRwy+gRF;sQ_RQ3xIQIn*D=->B8AssG2A
zoX>NMIuK`utTWu<OZxrolIHlj!K~CvX9nIAETGd#FdEc9$a3JiEqi?^TvQl?(1CY$
zJMUG%Y#%^(tX<DYK=1LJAE5(3KYC{4x<UO-$%UKr3AQ{>E^eBF^|2$bD<N7u6Mv_A
zbTo1+j;|b{1Akrc^)4rC2=~fJx_o*E{U&7@7NG;**FalR)lj6#-#_l_1^ahhS+x;5
z@N+mp;*e^>yUHl&pKtyviJ6cS&{>Y2zk(?mj`wCidGv5uOJ?&vvd-{*b)Zk>VS8#N
zP|Js(3$!q^wFn*fzTEGcSIp|89tFJnRP=o;uo#QbfuF;@e(Q+DYy795k<AYJy{S8~
zMd-liu9&*;c&D`N<wb0S>gfBQXnBMVDeQ5%v)6H(Q%toj)xooJSh3Mp1fc`(97VC<
zrPFU5UiPt9apfLc+`b92dBN`+>!cI!KaC_3W?GTkhzz1iYY{r|&WB%>AB*YaMopHR
z2G(tL#3dti;QONaa0SN|ir2im$!=#ydZ=g)=q$BS&ir2f(fUcUN$F?E?}z*d9r)be
zdb9Q?Y-c<#ij_*6Y(5ks0Ca?TuFG<c|7(5BaQ`f~#J7v1#>nOc|G8MqbPHRV0WOTC
z)KvMeioWpT5jybBg_>x$FJvtDUuHIC3>yT_B_nj;*D2cXUfv!F+1Y#lg0AQ-zW!>9
z(1D*rQ9cTjIl}XwJbBLGu3wtS<wxki_l2gF?I|@FEB<0qVf5~!C(EW0vd-{*B``1Z
zY@<y*2!&Gbm+w6>Zb9h4&rfgl`MC}Db<rq(lPg0+K4i%V9r$`W(exaajyDy>`j1qy
z!(*px5jyZbLzN6Q+hxhSKGET|lpd`?A_yJ$dio6SFkJLEMGwoKr>bhSG$26e!27&y
zONf)qb!r>PByQl|(bgHghiqQ(eN~YRieI8XB0QRT{-Al<-!B8uDgPpz)p{%Lt<TRc
zJ~od|0b4-F2rX-vw=mXQ$%`to4|T$b06NRH3~S$MuNd{6?ul@?a-o0U5LqAiynYcy
zZWel2RVY#@qJ|<RnQ;gmc;|=YMz-qsV1bAh+xo=!3R1BM9r)a9l*vw7`usKbj4@A`
zt2@bU0iA8`UuF+%_)yP+@J6Xd{?76U9r(V~%FVm97Hw_5(D6S1W9{sQLg>IdbK96p
zQhC<aessva*la<+KWYFruMb%v|L_fwG2ce5--z=+sVzY0!1py$IDS*!_<Oq;JDcV!
z^%sS%2p#ymuH{~-Nof4|`>qX&t2eTD7=zG(KYkT0|MO>JA#Tok&2l_W(v>fd(1GvE
zYn9C5VJNvO@x&6kU7cbHh0uXNZ;`UuN+wWdGA^TAFWOEyKe%!i*}UM6zST%|>W2cg
zOCLE(mO_VUaR?pw<Dfv<_no$?kRgS~i&9M0JE>Se=lIdm+kJhxN*_8EiW`Bo<rqN6
zuA12;>YB|v>e&~fvp<yfQGkx{l4L{R{LZ$1{7u_4-`JvXcaU|4_bD!=j`@21Ln%GF
zRB5!kH64r4fj<v-+4H%u{W-Dc>2v~FX}Z*i4?+jN9tNhQtu1-0zHsxwJ?srpZ7D#f
z>_YbklIm3kja-MJ`-&z1GdpB`;P;<tR{yV(R^hh_uk;afJ)N<|A#~vTic@Z}X0W)X
zjsN`n(m=t<FD#%#E>I_*Me3G(b80LZH}3xdgV2HBe<IRHMp?g(CpzttH8e1`k#Qn)
z;C<qV9v*bQ4%Jmt@^DJvJzCq;L)IC-9+xbQzVP?<YyBkaTCXi<lyC?g_<an^EiL!*
zGRiEq)tjaM)iP}?phI3(@%Sm}?_L{%Y4;UBET18u6Bzlp<_q<4d6maSwI7yY)SL(%
zc;`QnqUTUezcnl^R_t|O1w?J?BI^u)AG_@|9jAeEqKd>Yt7Q|jSHvhn2i}>R6}z-N
zq0c@wx%P5wWML%(p#$HS_RAJYwJVdi%S^t~{c~g|a7F0A*E4ux&oS^uN7BDnhW+EE
zY%?i@4tzaDCt>c){2_h8Rx%bVeYAxrKu6W?&O(y-Lo!B<TLux7W>up)$mRv#S8$Eg
zFaB2Hhv(cc8@|Q-2+Kg|!1wjfVCtBCAwBl%>P{?WMNF+LLI-}ISO3b(^vG{fEj3Jw
zBSZB0mN`NPzMh?ZR|PVaV*AZ23F}s|d^bc8I`HQS?#HnPyN84h?ZJyxFG6Nd(11?w
z$`P-V?aq|^q)<SIpS|j)HnMra@AK}K>#4LK0*fmYnP+RdJ*Ub6oq>YA7gMdR{O*%<
z=Y?uJY+V7JvYHs{DgSuG;KmXb&ok?3A_yJ$IsBO?=85JLHWsEjJ6gc<S7BcZSs(cM
zi4JPyIfbJ6HkIt%E%7AObp@dVKR;G&-{&R77=I6U9=%j}ckr_o&>09OZ1B8n`NCjW
zFtkg?PzMX>FrcdIBmaH9b0)Nr)vB8#*bvYe`c>^EvZff?TImrS%+O`V59riq(lPja
zl6>9}WbRL6>oc~miELi*xgYeI?=(H(`}2B|@(urZV|WWf2R^TS!Q|X@7StfW{@&UN
z<Da{+2p#x(&_t2!-5xu!n`hs14t{ZXY>3c-uV+oqu;IqqZI^qE>S8i(A>sUh&h)oQ
zA|ed?y#k7v6>;|ZvHjb~I>Xl^sc}BCwExMoUpO@eGhTNo96|^FJgVxeXZBj;o*`YO
za@SbR3@QVm178n1S>+g2Ge7jU=eenC${@WfLI*yt5mHK#RD+peP3H&Og?XuYQV1RR
zdQ`bHX+%bS%@RpxJKs=Hyh0&#;Okj-EqnQ7c4a=r+;FOQf#yA418iR1XLUQ-ckfI8
z`h0)vpT1On2B5=lHr}0MEKVaEO;96vj*HwC(AilHdr#A0%ba|erbHRo@IW4+1Al%<
zdlPfxkmzRCQ2m2zd5?Sq`4KwsdEKMWSMxM*b#tg?(3|!N4&1*5*16_sdU5xI+YMTz
z#bx50H0C&j4*Yq7;G9#&%ymt^jf=zsS^VVl1%S>w3d<?Wh*$L7e50y$4vwl=gbuuq
z8SO-@*NyBHi!-H%gF-Jt4FR3Zcgk)npHP&oTZw@RGRb`W2p#x+V@-Lv87*`qJkCRT
zYJlH(iU6Sl-`8ID<h8r=5=AAZ_M;znw?E?5k<A@`otov?5jIdeTBa5haJm0`|2P?;
z17A<Mb7$M=Bd?hcG{tjO=GwxxfR6ka71nsd(3YZN&okt9g_0CP2fnYpCufR>UY-3X
zD&s^-XZ1ym0MLn7cdV2i9VXH#c^dO=0QVB7hO9HZ52ZQl9k0PW>1<ZrXP5oii;@vK
z@bj|~o<<W<JhGsw+om-axufq2=+t2NHe2=C;=|lS_F1TP7BC1M_`Y%{qciljIY?q%
zE-FyJb`)U(bchNJ-5%uT*Wd8{$uSXUD!qaM>zsJ^iY={mk8SS6ok>oyvXxqd4*dKK
zpZiQDS;+C{s$x!kbm2dqKtRV%)=Wy+|8hXqt@1TR7hQi0LI>V?e|JrSZp((~z>QA#
zlM>qtCWH?B{A8Ijmxd7W-^^+7IAfw`du~$|S!Z}3-A6-j-pgcXCv^^}v|0!=)gpA@
z>tQU$HQX5Ha*H=Id2RaRl4UGH2mby%+o#t3^NX)OL_~MhQyAZVfJNw_Vc+M#rtBd8
ziSAw6`}H@$X$c9K7K9FbUIttWQ{SA1&O;8;eZgPnZf4%6wzR&F?;0-I+~c>V*G9M=
zxbx<9inqFWAQK(t6~%TesRA0%;XUl0IiJTn2mO9?yb7}O17DAgPWDCjGX7%d_nXHe
zbl}f7tO89p)Cg1l>$n0sdU;A2Ogt_d4gyiC@9>H=+6W!^z7Af!5{<gUFa$YhKxYH%
zR98g$TDYgv9Q(w)s2Hyd*7>Q)mla=Lvr@>31#}pm#you~&TJm=s5)h@5zVFz==_`O
zmcFpVybd{NK!=TGR?MsNg~u)KIpyrqUp4rfV12TU9<6nsT&#thSU~5L;3p^Y;<8Z4
z(FSy6_=NeFMrR5k2My>f)#gtRj@CIt4qgeY52iR=Os)d$0y(jOPJs4tq<FMv4&-P9
zI$k^5cI5}3;~)nO=={+C*LwZmJ`d#J6~X%4PcCISl-d0PIkAAw*7x@jxs<IAkfROg
z9B2GvA2xr5g&Z`Xv$TDunEb^88RXy<!1|CdEv6W3N?n7TSU~4jQbTZp`v4#0XahQO
z&qZfiexFr?95kRqeZzp~P%~Nza`5tCeOT4_{bt?&3PDaRptEQ-k{%yGe-?7I0iEaK
z%~Pf-(+iM;26Sq5n}ze_yU#!l{svedj%5)J@zM1E_x=OujEmdK{OCyZhSsAE=qQz}
z59M>@<UtM^(D}Hc?8INBBMLeA>tKBX-dB1kOGJ!APAs6qz_~>3e||n2a<l;*d9L8X
z$K2wPkb?$vI?6O%KZJHRKn`9Gtk2cAE<a@SRC*vM7SJ&Y8?dz`>RW~!Z9s>a@qrjq
z-wRjBK?6E+ZG3z40b%ZtgO>&CBk?RZWS_6n7;<6(9m_v+j6qRhB9NmE=q%j3W%Bn~
zS`y@-0Uf>%zCv4%?mmVb{57yXqLmZ!rqRT=ASV{kp*z(>ayBj}kH$#FZ7+q;Q5(=X
z5i9Ap3z4se95kTAWWC$o@JY;4Gi%3uhu}vzUIwg>Mb@bluKO)#ASV{k@g-Q9o6N?o
z$wlQ=6MkfO(*|^c*%BM=i@jta2My?Wh2i&&9o{fO4qh6p&lmn#xzy++b;yYYb(*+w
z#LY!k4R8B2MkszMX#+aN*8+{7q714b2My@_IeSj)xn$c3<lv>i`rHg3sJ=?{<`m?_
z0y<`==fhHr2?zO!UKQa#3Yusmbl~r6?QN-Rob{hDN{r88y<~EYoC(lbII1T~v16}J
znEP-qPPCG0<|<g9x^()IsfYn};;f8}5}JdR41^B+eG)+>+Y5gtJ9CfO*JXyx-fRaV
zbl~rAsP+f{C7a8<Dl0}5(4_AiC=cl9U*|i<InXmf^CCd#z~|Mln~~2>D}NT67fupc
zXSfqHT)On`_3AP-uULc*yw9D!tE666lOIBzwE>;{^K&((Z*+8_&S*e~-qHPX@|_0^
zP-pxVus+g>Q<vHvPb@;6lL4JVOp8}#P-!F7*&Lw*?@S-Z)J&Pn6bN<Z1a#b=oIIZ^
zmVX6xo{>P-2fm)O2YMf071jNLI%gns;OCI}EW<`R-<B%W*%r{z*U4eGD6@!wI*TB5
z;QJz`lF%z8tSEpwZ;FHUF<RoDyDHpw5$aqH==@1po!ilS_Z8~wiqL^~KC}~iXCq)!
z33ZkNbjG`W4!qLpRe(AZAavlJ)zyz#tMc9PQ0Epgu+B2AG%F|$4hN`nAfR)BpryN3
z%;6E#SstMS?`%pos~6{*e;(?L0(90&VhD45GdiHocu}xEiS@jNMV712p~ur$gbw`i
zRNm)Bt4ORTGc+$(gbsY}J+apD!5U$&pw1!)9eC&Yw4!H&IMO(%^S%hOK5(bw$+O_6
z|9;+wI=3Kn;QLxCjQgKwbp<_8=RkxGytB9EFJ-?~saB}7IYI}%9@_L<=Z-W(AEW6V
zZpZdpc5(tb9}0^M25Wz<LD$#JWn`V<>-l#~FrF@@yAI7g1EB+-*O?1G{MaiwyU^Ti
z0i7KG>7Lj#9cQ7riy(C1`>NsX@4cM%`ZhH8%}dDoz~}BrGhwZVS09Jwjz{Rg*V8-M
z7HxB6E(gsk7SN&SRW`k-WS9)iOB<mBpVvgsO@-&d>OIiBm;jv=x83Q-9A%%NdCdqT
z>kRMn^+=OV(f+Rz)HwstIe1#ACZ7;Wv~e*M)8L#EYL3u>_vzAb?K(vg9{|mZAE5)^
zmvZ8Dqy6V!K0)(ZxrnR}d_BzJ^WT@ETz*3HDhG7FewZ6etPTo>=H-LXf$z(34`;iW
z>6!=4OA64rr&-}NWJcBpb>0_3)(5_x^OV2eFB`-VK%Hw5I`GcpH@V;Wm)6ukodW?K
zQcIFL%x5=N60P>Tc1<Gj7(j=d<rG)Gj^1r(UTB04ybs4>73Jo&-5uzDh!;fG8Gb)}
zGnrEmrhUoIxrSn^G?V;dIYI~CS@YP-UQu=Nzt1y$5IXRE$-8Dgx}WN{4V@n;K!<TT
zU1x9S)0aGpMgphOYS(=MWPRZK67u>(P?7sx3p$4_fDW(VoO6A}us?JTv4BoP)Wu$V
zXU8e%9BKnPMtt`T9OdZQpmWHC(1FjZtdcMK^M`-?(0yZ+A6aL(Lz=d>s8}wg1$}=@
zGC~JFFZAP0?Mq2<9MJhON9e%U!!eDcr#$mr7CJwi2p#x(rgAbe@4S>gD&RTQxDu@O
zVTBK@&vZuoN~6N%3nIr7f~||(R|^0gF6&am>wN#pq4R8u(1Gvkp49A3=1YIRK<8Nm
z(D~CK@pmLlIvhHO`@CR%o_M@uY%`4Kh3<#72p#zSkm0yzkw*ERH*}tp5jybmbL)oI
zY?*%y4|EO<0UfVk(S)vywFXK*y7jAX%z2mqofmv<JI@E36QQ|}UO?6vK6lMidVA8l
zXZE4FX8<~i-ls($v1Gl1?qjxqPJ=Z5t<h@2SLpnRAawq(d8NG;`1yP_4SF2h<N@mw
z$T78+IG=wDIzP1t9r$`U`QFXS=cq_SuPc239fvVvo|f_QsJsW+hC?K3XemI4RK-?z
zzP?WedLF*d4c4dk_3#Q!5V0zBU9=!{;C+O~itUXWC5vw}?#=P~qND>6I`HqOwNpr3
zoE=uwf$sC#2p#x!q3<N9ARU13gzoc92p#yo0;lD+!hR4OLihPmE@YkI4kbFppMSbU
ze#S+uMO;T{CmGb?vXAMuEBprCHw+Ov@IJ-~S;YR=40fRV1}C6Hi#shzC}SxBUGFRB
z!TR8D_N!j65cv#Urv-q{{ilkG-Iq0tpz~}C=meCcbzXITF9MxIeuNIZbBARHX<JP)
z8#J#?PGo)Hj$dKa=ggD*Bxqi>fKEvn1A}Lx#S%2HK!gtbJm1^PFy;Sw?j1BQc|a#O
zH6LG}86*zPivZA>^X|A9L?YG?b#CDR>zvx)_-k#wG#cuR1$4qT@rTCBD?(6bZG;ZI
z^IFCISi-AE=}>1hprgKGy?E+en=kbEg=a_B2fm(S>);fMh`0ZJyod#KNZ&V}j~}(-
zgRU=agbw_=&{z@C(Yo2J0nMEW(Afz}FHhE-vVrD4!-lL6d_8(1WtNKKLhR7<r~*Kz
zsP*jy!xu|Wq4VR4(1Fj(*Yr!Fc2>tC^gK!gp#$I7HIdBqPS0^Y=p62|BI^TR&&a2?
za6>-Z0_Ysp0y;8dHwk13=dZR63QK0!Pe%FxIu!#1T#Ty9Q_%fK3ed@WcsW6Lim3@Y
z&-*OM`oKHa#y;_!IPLlzI?pYDjw`1yZ&LVACg?n40Uc3EUQ>JxdlPgHwGle-xl=dT
zy^~R@{qOrxXh0{{!f-uXY2+<5FFZ4{&hYhcTr{jMUceVa^NL02z~^<q)~CN2OSb^c
z%Mj2h*gkIA!16Fc^Wp?_hIQ|8hs9Igg66ey4y;eN2JsL7kBf!S^<Dtz)V92re*e0S
z2AY>Gp!3K@BHxZI@Fp}beuNHuUL}b#gZ!DCuR`Kub*Wm&vNoBJ^?^GL>G@SPKMyHJ
zdxu4$&Jl0a0y+k2W@V~OC^6fUAF{t)yu1Se9Yb3JG#iO(B(xq3pfgEOcrjwwJpx(}
z8ql#WUzZ_KrL2b5GkO-RGqIJu_{(=(m!S1z06G$~o=yBx9Ck5<Ho63S_FJ|H9r%62
zX{`PD&9@^i$l(WcWIu@x=ZWD?LCy*zvOe(j5Y^YK(hLODKu!UmbLRTmy!5AQB#>hZ
z=$JJ4(9!%qoZV+Qm+v1paE0uhO{fSBD-vbPC?nZqWRsa)q>QM@C}fivLPkP%QATFA
zzJzSD%ew#fgX?!6$9X?FkMsBJ_vCea&iCgW*L8ibE`-~?n8S<c*bDC$yDJ9{V9qQ(
zT0R#WW=_ak9kIonTtuf*?DfMAKDsr`u|;(5{U-0S--vF*99~4HAkXHb11;Y==FA>P
z%SV=>=v23$BtGWkB0A1Hl^U{-<|r`77SZ{2j5cKa?=Kb1;YD<={K=*xBB)ltoLM@w
zd`eas-M(#0U&WkUMCawmYQJ8VS9L*Yu7NaO8lx?w1D-qeWf%SuUz2!_If95zdbk@w
zW`M&<%-NxZ%LlCIYx~i=3&|cdm{X7Fm_F}&`H}VhMa&6BbmSwr=PL%T{lpwiM8{p<
zdN7(UXB%^v5S@<28wS!mIoX(lqe08r-GM~F`upSu%*jP`CI%;k?t3k-V~z`=qh3Gi
ze_B(+5Oc&49n<q}Yp+D*!!QRA(cws>Ykm>9_YiYhsnK#KUG7QPZ1wfSoJd4RaQ@{s
z0pDsT=IA3j>1IBsgKZPtFozS-dBd6{rLto;hB>oTX!&HF{I36~sW=F8iV>Z_cX)Ra
zc=anW#~ab{NfRJ(n?7*QFc1mikYI?Ffpoy%9k?QcbzK)P7hw)HqBE00s4mT2VTd_6
zO1PZCdW43V&b41#5yG5eMCY27WwkzM`Zdf6Ky-Y3r7Y?VsAw=p6Va)2xv%_0Fme@h
zI1!y)r}a+~mJ#nUXO#ji=YJB9$w^eNJi?rMMCXAp9h)dwnjGdtB08P3a#u_%8Qn0)
z4AH5x%wWy(botK_M0AX5I@|?4yP~jq@DQD!_*}n+g;ZxTr;8k|UxOAigdZiH7BMFc
z(W!RKoMa>^kHj1oMCWmzd2!vB)<MjXL3Ff_`A_a>h5BO-HKL<;ljvwttBMuo;K<N&
z4n6)&R-et56myCZog4x;pKeJ8p-g<c{iQ&c{QyV@yw5%Q#>UZJGQ7#|vgZNySspVP
zL}%b)s@Hpd$rQ}NLv-F*^kh`OqAD(xxyvbb-$SLI6fS3QTyuh(a)!zeJuxQ$(K$-j
zv?+eAk{|p2j|`#{(s0V_OFiBd%)vu+Xm+~Bu1y(bV&DI%Cqc`ng1z*%LGAD&<^&)*
zM#=1Dal{08UL8SXEbEj>GKh{E`PPl$Cx3D=2M^KdwBB(hsxh>CaZIvMI@9%bJuzH9
z;B|ts6Cqc9DkTN=>e7r{`|szGkPbKxA19oS{+zRfhdG*vjx}!cua+Nm0p?I6I$QCr
z`sZG*I%7^35nMjtxB}ZJ)LNC*|6e|cPLJsWDXSk-t5`jnh|X{gU*SSpjt1sXBRbXg
zuHQ+e(+DxA>lj)-?k!bc`tA~UU``~WQ*`5$lRBMv1LkNVI>O(0UsTw!mSPSyq9Yq~
zMRr0am<w~d2+{I!aJsUd^YLvN=0qYof2&9-+Vx1qFh>*7(T*-yBaET6#T;rxr(I8-
z)P}Fa5_7r;(DLEb&}`iz#-GESNK{8XKccQ;UIBA75uL-7$IXdELI3rO8qxW4<2(P0
zJ=}W-Q8goFs_3RJe7JnT=VMhxkGB|?j3O{69?=nyXDaUc$9Elb%n%*VMv1G57YNBQ
zhZoT?h)A}_{rmA8b5@U{<x_2{M9^$#{u6U55gj(#D&=|Y&>qYQKy?1Z&bSv|Hg&-q
zWkjcd%sek3W5)w?s1cpteGIdK#l57MGk63oXI|S84#TC^&zO^j=rl#n%ga_IN@I>K
zqO-6U^oY&2RswSb5uK~A$qs%*UH^hPJ9udMT;}57o@8>M#GHCW=d<APq|nHc1k4FV
zbW#GQ-HkqdJ%u@%h)&aZ>)E`tl}XHDLUith#oW!j^D_ziJ`(P5|M36*2Ygod|NCF?
zdW<7VZq`;a+zxZn5FLLqR;w_a>VMy_GedN4m1;b5yz)d5tA`WOd6Zx%-9+_O7;|t3
zX!(d(3>Y1<_~Bzt8ln??Uyu9MR=*nNm?1iO+dHm2WMaQChZE7UXHPL;)os$l9Na!y
zKE%rEw(CbW|N9<n8lpo_6ZMz#j!q(0j~SxV>9OG1D%G8iIh=?Nt$^KKeyzW6F$cGY
zmQVA{jThsm(@tVe8lvO!fuuW!X>c8L%n%*-!H?8K$DK4VhZE6RI)UdrHS2#4b8x$8
z`7lh|$<@l}{kM;$Av$YI4DYthc=WM)%n%*rh8!P)pz{B|7srX{OerL^I6WSw!M@Li
z`-hf~@aUV@r^VwM?%xjmyRCTsQyQY<JLRPy+v7Vl;i&OlF|5DE4AF7Pb~~0&78i;+
zoQRIpxUsm?6B{<n!Tm+cr!l-GmR4ul3U56{%DUH=C=JmWd!O`qo4Ne~_PsbWM2DHi
zU6A&aybtDZB09~2ev#pap}v@d+d<1m+S4VQ--}iobJ7r<zX5j>m-QYoVBd=~Lv$hn
z$_FI|+-_qIC!+KH{Z<<(P1#M%!EK}EGu~>;@cof=G3KNpIvh8M*?%7?E8?FkbqpNH
zTr)#-p0+z(u^*5o!5mIRhs7v%`nuOA3(Uc7q2-f$ckxMa`gJeNNkep^0xTbVFdvqs
zed}t<Fi3pX4AD_P-&-l_P`8OWoQTeae({>NUT0^_!EK`D!%?Wc_eOq%6m!xLou>o?
zPFb~s1o`5nIN61ESu;dOMKoH4OQ35Mb2t&5=WOD)y7cUeFbB7RmQNY+I~+v{(Rs{C
zLv)lPXX%Q#If^Xm^X#Mrk42k7I=sLgP`AYQv*!xCj*T?%Hh!!M{;iLgPp7z?oM1OO
zSMKyLk88dGhD?wS_&n+?xkZGId)zyZpb6nU;h|%&IfKq;m$|fsO}jx?`lIj8yKNHZ
zLgoWHiBo4qvP%6AS=<Ypm#@*gxj;JLePxs(M;mFH_#);AB0B6hz0`P2PMcuP>N?sy
z+-rS(kW?b*;qT=?7OqILSd8ch9X1G){M;44b12$(fuHKU3!-Dc!sukiT6<3Tn^zs>
zCDk-RL?^UKi^z{yOnJ~)fzO{|WOQ{6Eg!qdrnndNdiI~&x3ptw%z}y`9q{`AZq$7z
zEo7FcjMFX^*`7a`j)Zi;d03fhu6yh$S<8qXAtTFC_I7<p2mCunWMLDHL_9K*<Og5U
zd%MRw1R)*pcRi_(j&<49oOVu>nXL5;Q4jGT9dKOra#U=@EV2Q?8OkSHudUu`{R7u8
zupVM{t2_S+d@tI^_~tNcrS!)`I$%BF8|o&U^&%=6yh^Mov;qNUhz>jNcgy^T#0tLc
z9|cywTJG^8I;#uR!kaw_te+wcC-M@nmaMMA<pYk({E}|;LATEC0)b_qRq3BUm5>gY
zv$JNKwD-N+*Sw96Mu^s`g@r;oU_E%xPslAcZJj*Q?wUNK9IUMg>45e4<S!cD`y92h
z=J)r$3-5_aPDlsbpBKd5T%fWIRw!*fl0;Ce_z<^(mh+D@GG}VZD1HZgo7m_hBiqk~
zbijJ<Zv@A*@Sl<)onr7`Z1tVBg>=C6PMC8gW1!OWQejZjckff-{W6da*sn&VYCCt8
z%efn)iX)q{Y(B)04p>iMfX)xa$hC*Hx1yWmx3(s6%Wye^`P_LTby524F*-VpnFXqE
zr>W8)9dKN;beW>1`fFo1xCzc>CLUR_g>=Aq=#_ryi>##<>v^O1WU}va<HaEzupZ7)
zg+akq`uHE;_F@e6{srSfI$%B$>BT<TVl7c30`wvY=4@8=OK>@Z<N9=#piE_#@7mwQ
zo|4GmM>CO-4p<MZ4Q{TkdU}Dxby73pOBahKqywI(?wijyNq5t9?PT+kRxjN7DhTO-
zIlp)jI`o)*z;8<WjH+HrX64QzT0RU8n*>=~Yh1xmO`E4k4zIOBI^eoEE=6~@b!>w!
zIElit*f*X&4blPowS?=xx?k|l{^BAzm5Cx(p$npO;^gEMx%_5)eE-eH-g+f_8Au1r
zdCcM7pw0r@*;+X-%M;hV{D~nQu<swwZF%1iwGq8`CpIcLJ-lFc0j^)*JY>yuXUt4Z
zY5Cw-Fw{<ahbR})0mt>Ab<>pS6uW%($^MOX>1-kwNC&J(F!4b$jzPr!q;pzjkAGs8
zAfyA<<GD(Sk6+7kf;Hg!w`Mhm(w%v<d}!Klo2LCNypvGRu}?ZdezX$N3H^CPV}@Nx
z?~3;il2035zq}zGa6Y$$gqjTwie4lBYh0_OH&dt#>3})kEq#3cYr5;FRK|%X)_i^I
z#E=eHkGOYw_P=8)m+;?8t)1Xi{yaDbmoqq@8TsQLkRNY2tC^@$(fKkWzY@{``%ZrO
z!b6|)L^Bm5b(Rxj$CU#h9WbB5K>o89KWaHecs{cU$3FclgXr`|GtjP+x-`Gla~%0V
zp70S5(gAa3q;DI3j=R>glcO~)>p~^gH4B$BIIfCA2@g8jq#2d>`+3K0sN^FNo!xlm
zL51Tw;U<K`?pOAVL^Tl|I_Aaua(KVmovaOmer#^cQX@K{nJw3T@jcV%rsKXtIA*=o
z^&2gp_$&=OA+7f{2UBl!OvmLGBM}`R5m&14{2H3mPu@R^*4V(;M08>f+<a?~6mf<f
z$zJXs?>tA1=$uu&9Mk1_@OjZJ{VSXQyNa$ExO~8Ms`KWBS%^x#!&AD$h03wgf?`Mq
zoQDtIIB^WI9SvAG#(SOQp8lo_qyw%CvLp3XG+!@MPOzMPOL6KIz6_)T*7I7-EI9Lm
z!ofoigM@wEunjy!$7!l>R~RqkO>d@+x9cfCrTS^OoWXI)>CC;E$>dWj3$X~3iLMrj
zgml1hv6j%^@o{T<UvRHzlZY$MOB2zdae9);5SKr{S0Xb0B+J#28qwJrD&sM^$~D)2
zH+JVY5lv{<6k0yN>EpDX_{yYg`%G?Wu%`*6K{{YQbN|@$6^LmG6xAF^3<L@E%^)4{
zdR2M+S5Tl!TrT0aqvD3%cT>b69k3pOxrWhy7sU8ie^7A;@BK60`308`==hN*{GP0g
zyfI|eeMr0KSX&9{kOR-d4`}b19TpIB-sI=ya{bE3&;{v$_1OB!*PTi{l+dnA4BljZ
zTN{b!us_eQdK1j$c{9b~E6p&qq$Z+caarX$^W<tba|Ee$O@_xHHKYUfy-=TFq9^2c
zK%$0`((jQB-0UP;zgG6Q*K&$qEsBbiCoH&Ygycdx;J&fy<v~zxpHZ96d!k)r=qHUg
zqyzS=W7w&mnrS}q{c)ZUH9GS$aYW~C@5F7(ExK_kC0(}Vne=lz6KMGaGoBC~uYNfc
zY$Ut#cadnV64BW#x9N8|F<aQBZ^#tgaIM`N(fMq(`i_)fLa$J7*Gnqs54kv^b4r(#
zrpc9d?;~A=w8_}%;2j)XKHzn)=#&o&>wVIf$~W$-sg-cf)<ZgA-xCPJW*+%%l)irE
zV9%RpqaT3i?Cl*~SE~u~Bk}Mn`*}OiSq9Pp$0b<Oi{F<t_v_8ts?fwRi8(Q(1CFbe
z_r@9596PaShT_vyC*}UN{)EdJbf(?k?2|^Mxu%{e^6^jnP8ka6fa78?AQLuoGyU09
zB`@~OV$NO@(gF9M78VA}@KvFn5bIq$t?x}VypRq!uA{uRyF;I44^EDHsZQ5Bb<B>V
z<-@0TOzezo*>5ka&D`fHqNKTqj@(mxc`+Rc*AqkmPL5*s%C?A37ikJl%NgnWg`E?6
zxdJS|cp)8dUuC^h70vd<b@qKS#TE?{u5)J$EuSE7*RYnRdusf<7b=4y)QKw*9k$=X
z&I~+%Z&!QyDAaN57I-5%#M&?N&wjCxspg}7IQ`fmUL4Vx=Z$z-ao_jsVEG@f{sFe4
zol&@az;zL3%P`(CFV3DjI2SY-6{K7b>45W@=+u%QvDvuYXtcrjndEoB15lmB?e>?Y
ztu=U^_w3WR)C*(~9qyBVWpOuG8VvHt9EJa$cfdn*4n58n;0;#rnI6nuReChYQa=Kh
zGnmf@c5B___jJV(8V?1epS&dsfONohanZUe{zcKH<#<B#V1c?mE=@=Wtfx`eii(2g
z!{Uk0tt(daMlsZg&b@aX1K|<X<<H2p)fm{fT)T$R@?pJrvA@Chmb~g4VOr(w60S%@
zC-KWMF-^ib@$7Fu*ST9a?rK6hV9qR;oqTfm{`dCAUzMWRw5%*nNC(WBhR^sTZCym?
z;{~q?i`xvDxFNKB1P{2cT+=wxz3+V8X_)v0E)CJ~i=0aLpdhnc-;a7!U|s#l4AFU2
zvh?|WGuf>h`A*NdlA`1}AssO1fpQ&vx!BhmIa{r56RKkAtAl9y_}zDiXumMo_-i!2
zl;LcHT`{85Y{9QgSadXKBz1u~>CBCjE|3lpa3AMo^IZELE8C|9uDJJO7ajG?ARTc2
zM2;oL-0F@foxOiw^7LQ6Hcm(f+~=)F=yQ)LbH285Gfhg{!rz%4K+CydC%62I@ZFo%
zv$9FLgyc)PkPg`Q8x4l{3<9rx#Cuv|LTs%c=?&?C`HVHFlpJNFe%d(9TtrMTab6tJ
zN&Rye)4L#AoY8zK@L|sQyPY3!`G7e;3ct5=PSUdDhqC9l+oO}4^^guYF3yH<tB@rJ
z*Cyj9(jG^2Hv$lyCsShdq~W&zbiO19@XUnF$v`^bbI4Y~smnDzckC|zZ&yvL;cVuF
zbii?)@>k2yG26aoocF1GMdcq8t{*OEVqksU2|er|VkRXOfBh_LXQh{P5Yhqb5$|_n
zwMsgl622_qb$R7wdpx9b45)|wMcMpqd8eCByB0Df8L|ffkPcYS^0dcn=V#_<ZdP}4
z+4~B5GLR1VUS;_E9A3kz0EzhZ1xJq-*>G{leu4X#hQO7}PWFnw)pZ4;b@c6ocp)8d
zTpq58d&E_fytlS`nYxPRd}krY1v>J17oRJ-{fH<3#7<+oEKHjV>5u~bN|P#1@2w!)
zo@V@HU;DI2sTk4$>!}?L?Tby2@Z7xL{qxjUT(=9P1NKWXBW)=BU~b6eBhjC9w{8Yo
z#GD`ViAMX=;%v{%lwa}Ca2tZ{7uffu`RM4KE9P`e0(O7YJycAY5bMeJ3UjjCU%$Qi
zssFl)mL4POI_;~={z0Kcvnt4A?_u;)(HM4}g8jP1|A^!nBMsl0ug&u>yRS|3A^QdH
zKh`}13_gT{(gJPL&JT>`t27}Uu$~X9f|s2}dVBOlqr=U$qE1sII-Z@?v?e@s)s<gd
zeySL}zSPwRx37ZrkSu&zllU>GQ0y%~z~H}H6N%{X=(waYU6h-WZDlbsmCVD_M09%o
z$y+meyMM|$?>EP}{^A}rqLcC4l4YT>>NlUJQQ@DW+Z<iJX!!`2RXCOZ=DKu)LGt&-
z240UyM5m#O>2h}A#KpDNH51}o=?zUpr+=_K+n@Az*Gc(70uPO@JZeOzBrAwtjPm7O
zi926HrGo49x_Z#^X}+|Q@{B=4?!e}zZ|MemU?ierFlhc>+AdIE?pc%q!Kjp`CZgly
zB|tuXY=b+lQeT9WMD`Cgq9d=_xA|SGM&kLFSErI~<z`nmT0ZKTQT<it{hOU*gssEH
zgC0d9I&}*p#wG8oCd2R|6mbq}yPAm3nUwRr(wCy|aHNd$P+X`~phk51dP|z(x<opz
zRcI^g7?ciob)n@Go8qk>8@l)-)m6?oRY&AcB%-6VU+R9m?XtqRT2Y~^{<qsS5gj>}
zKeX>vJ)d!eoe)&p`BXp+>45h;Z{M+XdeG4r2Hm7Lf7-mpi2II~&x~_)6sN`FvC7N7
zL!?rZ`)P>IXN?|VJ2TDQiOZ>{d$ssW%n%(9A2zpq*YYZSix<Z9V?qR+kPdkLY{MjU
zz3Jgjg1L$d1@4N%7%`*+-hbKqleBH#-ZSi;{J{40jRj3tCtA)*3Y<Tj_*_U_+I@<A
zQp{gPB07~Z<UUg>|8&}uGKGR9;$$@;9q@Mt4y~Sf4eF~$E2Sg*&l^-N@IpG^`Tjz<
zDkxS$+RBw%V`=2ZYvI`rw0znEaiZ#hI4!ROCyoqao^QE`4$BX<;P)XtW*=H2gtF>Y
z18pH4@On&JDk?O2lDH|amB!8_0k6Rf(gE|?P7}$lPWN%9sa<h0^h%HCM09?wou_4a
zTFbZ6P<L``oHz#8j+S#B<>jCFX4fKly64W~+nMsDK|0|6^P%dXWHRG<NY=|-g1%;U
zdKX9sTwjuR*bJ^yn~um-YhB9y7fL1$>3}&W|GRXKi7wY^pGDexRcd5%rwuJ1S>3zr
zuQc;I`k(S`-M_GLvJ%m`%tg6j8OCDOtD8Kf9g||<jp%%R7iGeKrt<C6p>JEq1ny{x
zBRY~5H7xJ0i$uO!{(NkF#f@X<8(cnM-#vNWZoD{QNkFk<J*F<kN!tqPfc<*E>>Kb%
z=S8&Vcr2@)NVQrhq7&PDvVJu2se|Fijw>1L(Qe9!&h5NltzQc%`OQ7P*?r&dau7p0
z;J&e2%a(b{PD5>SdHc4#Tl^j#qyy#?D#cADa;LbLsQ>g4!oc?J`mb>P;sc&b44vw(
zUSxEB!M13wxZfSwRgYLtqC4k%W;&IUBHVSSwk6uy07M7(f|>Z>g!{w5`{$m1$}zK*
zL3Apm!+i`KX|<zQG+kC=Hx5v9HsZ`4*$H;^2}n5To`0*n0-H0~FDuu>=KUzsp-m-?
zBdcZSasnXx1wI#bo;+9-;~?+ey>g$3e8~i72I+wH%=pR<-{jsuSE+>8@u!8Tm=n?g
z_vbOjSEHN%s6r&t7@JeBYi-T8!p%dlo?A<kvb-IizomNI7hZfK{x28N!6ol>?i6Sj
z(ogMQtB7>qwuN-S>qFPfp4RzO843bB&wR?G?WHs!9dKMP(u;eopFYmHKX0*Sl_BL%
z4e8JT>-4vB)yL*#cRTFgL8I1_J@_Y%d|w%dIk5GB<2rY1u6A$UhX`}JTG0A#ZI#m%
z%IQyvIgyBtjpT%Cghucy%+W-2Jl`#p<kW{fGjm}hh!6IqpoVk|fPS5qW>{9Q3M`zI
zzr1_;UG=F*#Pu~G&~(psI7g^wyI)tsso7B<(gDw%QA*yDXY@Zy^}JrRdelz0XhJ$*
z-`neJE}o?s!z=lqen-=ri;x=90r!p5vQuqts;lEqzmTTep0uADgj^TkerVkJa>HM6
zeu4jP{1Fp(C%;Na2drmQ_2j6@o1GCNzu4P*-k&J~ARRCt_YKKAp)D&GxMLiSb^ikL
zWFQ@ITwfYxlI+jD)p+hCq0KUKp@tLE0qZet|6&~)Hp}UD?k#sqShx`maz2C3fX)@R
zL|>n!+ce#0p9iTOrXe~BQw8~FEGOjTbyvkNCg?sgLv#*Z%XuTKmt-a$rmYkHy|2KD
z=;*%vabIfuWn0v#$iS+>DL32~w0-PS2h+cB+l8wEcWN)w{JX52hUi$1$;NU!Z=YaL
zZQof+zxK)u(jf!(A3Dn?WT7-|rqoU6{Mr&`TU;O=u<uTIL~q`nN+aeZ><Inew~b#4
zLOS4lwl}@?bF6p1iENNh*k^m-H8rFI)+2IdIqa?XP88*WjISUS6Jgh9xPF24kR*AH
z%Oo|*-(a>M3y@{<ErxW!dfX*O?rb~iit@zk8t2dq=(!*|8BG!S>o+Le=hH`wq+in3
z2qHQhnnhZ{lVWFO2@O+Ed*nS{ZHCJS92es~nxjs-=Q~*x*(^AF@t2Dc9dZt-AB{(H
ze|S(1kx#Oo$aX<==FSoXzp4{>^07H5aopfiiXft6&053y%&C4X=li3(bay^zt~SBt
z17436Q`Gi7_-HOs%}eK%qom)6T94SVu}4k<A1{)d2c8N^<(fdPCtki(BRWVpC{e!D
zWQ8O+1GOF{{K!M<mdt<qR1f#WZ+(k~tp}Vx;U$rw3bU3)#H4RVzl)bU6hr0=I!bm=
zc&^hAny~)j)4E{XPVa)~@TCme;AWh6-g0=@2~CDC2_iZ(Lj0sQ?T__uUW;i_ZR#3Z
zZG@XY;J9p@CCtywd2e3qOw^0v#HTGrbYcS4%L{p2-UR96Mn^-AKXyTMj>HV`Z4wy-
z4pI1|I;EGk2_icG`vbEh0`EWii3aTptNA^Av)X``&#8>JJ?(XF_eiRzGFNwOIEoRS
z{xd5txn6%i!SeOZOc_taB^N~JAz{H$US`Kig8U=rAKw#o7DRNY<<lR185q7PYWv%!
z@6*|TtMzF4{3uJ#<M_bO-yPvOK2)NeTa4(0efUM>M>>8k;i8OuSu)R<3!)>lw<vET
zZy&2J{*B8z-%no<(HYs;YSn1ur{LMW|L3F9VaIA6T0Zmlon}KhKB!A~levD@`(9p*
z=nyb<Msg>(kNza)%=Ffm5p_Xy6wE2v=?s2<ieNvppfvfjR1ncg#CJN~?6l7w`QyuV
zufM&DtF>tP2<SMUJ;8P%u3|Aq!t+|m?P5fyL+<5?Ng?|K{Z(HBhfHb)7er^ZrhL=r
zVfMJ;&$~6_t<E<D5uIJB(XmUcRG(Ct<O9dwb%m^cLd&N!GFaMZjhDe}{4uxNk(Hcc
zM2D&PZOqr&5c!)~CoA$Fvv#{6I^w1iVb6V5GynbCme(G)kQGF9<QzYrxih2arQP>x
zCP;iJd$k5FpDbN5LAB309h1s*pOXw!GKvu$-FW9K9YqsINXT@#g>FBZcY$=k-yP&q
z=6>DUvAc8Eq+@>cuZe*Sqys+pn^H*cs5ZPluyLD8b$7t{9xtQ=)`Pcm?v%HmUn6r#
zO8dy+-l?5xxST=9PH&Lj(jA|NEotqzXX{jNE2INnZwy8F*M-?tbjj*=9=($E=uRl4
z1Ku~8lX;xgS~nG|>aBIv<U7@23+aIMTnxHyTtiHeIc9D!JJk1Qn-|gnf2Y2`NPWL!
z;%(e@Es?%gH;7j7ARVxta4)sy*QF2WemK{epNjfDSziU$FVJ}xMz1|zl=Yj!kAiYI
z(9<LU(gDXs%%DG}o%=$G|48y2KJ)HveMkqa$0^{F`gj3Z>e@@|8_q`KI3`5Lxp2yC
zu5CE2R8sGQmA4G<;77Q8!1?^wHO<p*E>U6dhx}U$;tS=ukPbL53NqOsBL5%LI%)n~
z=Z3!O+d?|ve2&$RzsoMIU_T<Kv2$r>qhA@)0qaR>f3x>wI3t9nFSA^c$M+mDqyxSO
zd-je|!%1P%%=h2LU+(c({n@F6%NeYvChh&6X-E3Az@Eiy1H%oPN<^oLx8lTrrC!UK
zsNF{QRM`-3NC%wHm7b>Llf6Nbkqa+kyRQTYXhJ&RxGwIdzqu#S9yjlk(U9%Po<a@j
zfPKH6p;nMbd1J7QaH89k=<MUw4{$ky<MJ@JFmerz`g+1g=yERULSrkW1J+~tR5?Xd
zCVfKW{v8Vg$*j6uNC!N>t{Z+f>x-6(yc_7~c07jRWF(^VB&0|8lk>r^Y*E5~LiYL=
zZ%Bs(cn&#D%lXE-mhC}W)|(&S9irD^9WbBABmwz0f)#}i%m%w26(@}8L)HU2HH_qe
z{RFfx*PWa58kZBQ#UUL^U|cUM9a_4x=hNqMY&D<jEk84ZbinznbM%;9KAT8siq(dC
zGPB8hPDlqFm*k10JgN~qnzou6Nz<@b7w{k*upX6w6>F|)+*`Gh<^I5bM@;K0;MN7`
z6el&NoO>fds9?L^Vc1dhAOO+<&kGkzCA+#Mj_zxF-Sna~gie}}4p>hg>8-r+xW?1%
zf+L(av#WBbA)Ws(=ScMl68^XJ@%jzD<_|^ER?E@yk(<8uq0}^klJJOXp!_TP#bQK<
zX)1l-e5uW~z<zua?pqm8T@an1O-nLLsSmG4X2R2is}i#XAssNE3^opJt#Xe*=B68L
z9gj%Fs39G&U!}_o3kPMK$!kv?Z5P`L61&RKa*lWv+?l2FIiB8Ff#P$=)rXOY4r$X;
zPi?!A;T&H9n}znh4NXKx>9_tu?wK^#rIJ=H9qFL}YDfp%=WEW9#PKUSmpl+@`*nl7
zv2dppEguG6{#A+-FE-C^le3i_s#8@$I$%8%S<+%uq~8rvxlgS;W_;C`2I+w7-8WNe
zPqp=2aygp>tICJbeiujwoQGSC-zy91SR~ZLDYgm8GVL`X9dKOjnkRUl6S!Y+ZNirz
zuheo8hjeIx^Fq-+HezEm($j$AL4xr4>wN)`4md8^!GPnmjH#o6V+@R>qFiHUh|Xz=
zG_QXoV!c@>brYQ^JD$iuI^gwBuz#>IZU2Vj(8L}5DSY~1CP)Xo?ls&zo_|xO>R8yB
zUMo$Hlp$hB2mBrX{HYF_CJ9kr!J*SP8#_gXy57UB3vgVm_>s94DnScO8a?GFR$ZfV
zAsui&=Z01LO#KObdf#N^d*R!JXm3adtVePE^;*`Ki^FAU{S_B8#>6!t9dJJ1d%<%h
zI`8~jW6BKtSa(fpaY*MlFrV2cK4lKM;}`RPiljCk&!>olbijQ+5%<+K%9D4-#HjIj
zy&Z!J?6|<3)z@y<O|?#)9KTUO)4+4umJ_lb@Orh`fzZb`os3j1ge5Wl1;a;J2h6!5
zO3$HA<2%Lj_vPHPRQry^koAE1Oim1#@KFb;Scj82W~2qlw3filXVCfdb@{S8!A&ne
z5xh&HQD5JNB0596CQB6(KbTnhRmFdg1-w#5bW*eN%kL*#2#gE+e%Fer#f2Es0oVIx
zi*Z>)OWwa@{kw)!)*GZ<#c=t6P65As+ENn7oz-WqMVpL8+VPMM*!M->B&M2oCWc;p
zmim)V4YUIw9k5?#nGe2hPQ8uJ@DSkI)J%<$fpoy{`>~{`1SVY)iX8iynqYfL)<GZA
z0oNDV$Zl25sj}UtIeCw5|6KjW3+aI4N>FfWsed?R5MlC(=0n|D$7~T?zrb_Qi?x}9
zR!2lE_wyR-D;DdJR!9fz`@FHzO$Ap{z1HV8MuGjO{zO7L;J8+w2WMK|&HLT^YVBQ(
z%FQ)RL}x|WGG~Y*fzOts@Vw)%n<3PQ&JtNMGcj3Av~o0!|Cz+Q$GhIa<qXbe2mITt
zj?>Q?DGKkhsAfK8tb}yHe55^bF2+pSJ0BR2T2Y2-R(V4@;CxmX&<~=g{la89>3Dk9
zvUDmE(gFLPD=hF{@wVU5jt_|jgVJ)E`j8HI-J-9tYjB;i*7K%W<6*(*yooZT1FkQ%
zTg0ieD>p`VEpz5|yZ_u`f^<#;=Q87_?d)H?t%;B)%JWYdl8sg&9k5@D9aF`_M?YSD
z^1^L~%_v8(7}4<?{;lYoL2<i9Y}TlmG9l9i(FwX>Io<w>qcUJXhh<~u7n2~OV_WiC
zX6N?lHu0-3)-GNz`nXyMw=Tf_M@qz%kLfDoz2oH%kFriRigrOdV9uPY%fvO$`#*Y)
zMigjP$0tT2I=WH<d~PCRvZo{zDcfRZ6*M6oa6a4fe<N5P$s$n@zvL+#n@lPL>457i
z{}}T`aR1hYGi`}7hZq0g6GJ*+Jt`#n*|+R>ltUBMV`AeZH+Kr)`UTeWQ9-fnoO@vY
zMuK%zI1RB!J){Hn>lUS+wCOdH;F>O~l+bCap#Vq+9M^Zgi^m$T^^VpNoo6Tgc{acW
z(gF943l?nL3>4l3jFQ8qLtlucWFQ^z{ctt!6%o;U0vmpA2C2lMG#lcO4wz3<6z@ap
z==x8cR`&cpHMhlg^5OagI+Q=RF5Zx<O#e4${-)y0&wxruhXvRVU5)S9jG4!a5<h8B
zBfKU&2AdCf|0TL+OnPjL_+#ofQ8mTj@|R4I`GDuwIsP@J&A8OVnAa_AF*fh72tqnw
zK4G^Lu7$nvHaA#gl&i0Fy}b&V4|u<`uyoS&1EB+7C0*ijwF-|PtOM4gRdAt6WrmVv
z=T_lM7eaigV#s<xCyUzemsred0e_Sr=g{9;Zx=-8@-vD_@%!gGd-Lx6nrpaLAqeS!
z`}_c1eAUzInQs_%Uv3f9@OM)~I^ehjD_^P+DMhr_yR~JcJa*IRdW*I$I&rJ#RWe%n
zyAzsQjp{=pA|V|vU|pEdzA#eGT(f!cYd`(v@vq~Wh~uIc_AmH6G`9cGzL2`@6{9F>
zKC49$wr@8oUu^_w?;ls>97WAXLI3cd({;NW7njfauxbY?!R7;guW32CaBM+^pMsa#
zhsyAZ??gOg&fvL|p4smvY1#RuL^CZ>@#6@K8KeWw!?6pj6@Lvp4w#1{md~d+bjm<F
z;5@AAJuo$H%ACa<JVYno?)APq-E}25LcO74epk2pJh=G`=0g`?d9l<(d@+>hSWk>A
zc~mH(W1Dy=S)f`$ggKgsPR$+sY_+#XZ7_!k(V?Efe=sv3;fy)BT(o?&Z<fDJR5<Y(
zb8-<K(W-?AKgnA@nB#)zTz&APj50no0&~O>9k(gV?ad3!d6<KT=md|n<*^?vlf<0X
z9JHJ#_H4A92OI=3Clb-|A_+*0JHhuCbMz4%?u8ns5~Um!%;7|INPmB38;qsl#GKh|
zw0xF@ve@4HCedI{F{1O8{mSf-D(z^@@kVswyFLrYG|(Ahjtru6pS3FalYA#V<`5$~
zu|2BQI(^$ZnA4Somh*|n<>v#>wcue+JfidXX~D|uS+O<DF++6T$CbA<c8PId4lkmE
zd$%%TamzXrb5=9a^4UxgxFj4O_}_f4M0CV+_gtD-*cPyQ0uUYRv&^|O96qg>qm1Z0
z!GB2FCBsC5In;>GO!Y=MKgn_~<_x|;%Q+=E!h0_9^Z@3hAv&KEEjhiUJcu#J7SRb8
zow&KuAFg_jZ$e|$ag9I_(gE+6kMMEaO(d3T#vD9E=ik&V9=+LsyO`6J0hcpa&!76B
z0fM$CUoa;P(U}Mq|3!W1(26-Oh)!Iz<c&HVfmF<qL3BLZ6S*a|X5V2BHKOy1=3`&G
z^XpN}!KI_+93#IoNbp$aD&`a;I?mgf?-h?#&|^*jqN8K9Syn*gNsKv~h)z+>!tRjV
z!3)gcM06O~1r?G{JBDM<Y8qP3^jY^3XPnxvU`{=vQy5zu`sb->2j)bgI(tiZb*an7
zFvkqhsUN?{w;S`x33CJy9k)G>lP_1zzhe#_qC?GeS=;apnLg%prK0sqw{T$oR*!r)
z=A<Dy?mswnC!?c;FvkVaF&%$#GlIkTzj-Kw=v;fyK`&lDERNMfjp!86JX0a$p)A21
zTnbvwW*0=QrkqD+FsB&Nu{u5)!@J#_gE;|+4jG@1T&$m?9_DBwI=gvWs%-k(fm%r|
zID=dkd`?IQd=4OztGW2hnOBHsH&K|nT=>jvGF;A}lb=VMe%$0zljmK$imH%`s$xW^
z3#T4(eZ-EL$at0Q9v2a<H>3kTZ~6I0N=KYH=QEFugGxa1?KN>kC!azj&g6-B?cFRM
zL0u_D`JE)Ve876bN?(4PxoP<(*K}LUIN^zXC8AU4H}3V}xxiu#-Tg;dsSn(}Asz6!
z)|y6H_W(J?Mju0XhfU&{FnvU)<w7JS&92P*rfTUVd8MT}aYzTe9=q~XmRHNcdgGi{
zt+?2m_kP5X4mc0{3D>OUGvwrQN<WhQOlNr0m5A1_fb^p}c)}N=HGeLjQEjJHibQnw
zHESrP4%W?bo=|^iv@v?13F(0E14N6-#2ehu-}>O_B2!@;$t(`(fPGIDQ*58wm|Dk$
zCl?%JQ{rTTbin!S;4al)s=YINmrDGnKm-TZU;<jsvOY_5>aqOVxrg^IbIK~}#zQ*b
z??m5LPw%g%<=<3I`;shIjaTXd>45WR-5p2h^)ay|)1E!yf<);(aYzT8&x88e`2%9b
z1H&nq{99oW&cuk$(QlUm8T)Il=tSkN_XPLJ48DfT85~!RhGe}kBUAF&BP|KJlMWMU
zkPbM1%xsSkYZhtr3LP4s-qL<C835^k^*pJ&8mj1<;Z_ma-4GoA_l+{71J1+jA)UDQ
z+mXYf1!?l(j3J}Mh|W@hUH|K0yy;__e5NbwHoC3xa5;nZh|o7r(OL|=Bg!^3HVRrd
z3WapQ^?t@agkU?wu@*ZAT_7E>9x=iTir@Zm7h>n2Afhu@?=mEBETV*+gR609`6$ik
z9q%@^b;8cUVnj#BEA|$X@3cR54!R&Zrytnnm&qo+%D)=?CP&!&KoHT1|B<d0Q*<J2
zesX2`3llN>YAjqn;JQe53eZiI_Bee1E0OzpT-m=$L}#pGGd!#Rlo6M1sOCS<g<}Db
z4)}ZAw{St~WPvV4%`Ydc!e`Gbg+e+E!0(<smuZLZl|?_9P129PkRA0EHXm@GA0zDg
zF1R`*dT>}h`Z^|PwH2}+@H<^sym2&<T3o#E<Y!mPX*kygAsz6264JS;E{)=%88T|I
zI<2qL<goRCeJ7UlBUO%LK21^fFNFQ`Pr69RdcghpWP!aTkrKu0rnf!~)nQKNE|3mb
zk2h(&>D}WSBt0$#4I-Slx8jfv_`Rl2T<Y#DI(8Hxw8_KI9-Zm&hIGL5)Kg|4+Ve+!
z-*@jslP~-1e9DjxI4&b8Q`>e{`d~wA+C>iU#FNyJ4izw;7Z`h0z0)X-E=vmYX*gNy
z%RoBd{(QArrE~PwJV%j><Cl$U!w-0n4%qhqZi@BPExat_uT*+>!}Pmxui*9{a6Sh$
zt2bImh}}4M;X*lqS%_8_qyw(g=>a{f)Wd|a;K0bspA9lKav>e?9F(h!@KVT&Ui#TB
z|7h*uf@mb7<3P?OoDhF%B~g88U0WkA#v9TB=V6r6?0d4R9gCEo9?uL6wAz#*9q`|=
zTH$K)=4h{77}|Oyzpvgc>;mb4Iji-u=@?K>H=kIKO2~BmNd{XFI1dw7Ukk;Z3yy3}
z=prOeR`()?tOs0QL3hok9WUFDERq;FyD$tEb-jd}hoBR#e>SUbD4tr&prlScxcFy0
zqyzSgCa$Vt=-qK)mq{Yl9;20uwvY~(kEv`nZKG7*lcCmgE;G{R_PmIW=;+~Wcb3Pn
zlqQ2(tb~okYz$mJVBekCyh;u5ibvGOKBx=*`mIwB>45JawzVBKuo}pt(`Pmm6=LD&
zsDyODeZwpsmv2*c*Hyr=T<lEv&_phz1CHzC`|AzYwK5Y|q?43{CXapzfONpVTaZhf
zFG#Z^R{53qx8ZV+q$Z>T&cp6kqbe2&$L4%u%YNOasBvL}binryw={&?Zk?|3c0R-W
zEQHBaPY}`p=i$?<$t|i(4(`PUc^tmM+6}AGaPtRr#ukqiwy4KA@zrrXxygZFTMX%d
z{Tk5zmK8eLAno6GT506nG<_(f1744j3%Z;m9B$ik!F4eg2nW53hjhTc>kDvl@#YBN
zEs?z-$sEX-vPE=kBF?!yGI1=LSjaI*dadwU9MS>jk6b$iYxat{q-AI&vx29i5FVrh
zuCK2)EYBr>yNNk%ySh?b%;a5-g6lhYo<2#p_j5Kqwi6>>_;hTLYHtwI0ne|PY;AM1
zVuzQw3AH3Lk}nys;{yK<g2??9P5=Ja@#KzX5B4-i)bJqJ1$aHSCz(wd7vP`2L~hwI
zPak^>c71`@QAaM=)zyR;K6b0un3aosVn_{H5BPrX80E*|#FmK-?7Qf&4!BNhio<jh
z)E(t9rwelafDV0vxtchYn+N7ZB03INZ97xz{t9A_CZf|5w$xWdd;2ctP$N2NhHVd@
z&5(7Op7bFRBVWDW1v#I={m1;w`J{oK3aZB&i{q-V_=9ke4w&<C^JE=ynL-}xjvGeX
zdo43*h)!wa#}9mOObcjBjZQn9%=>GG=!812Dw8oh+l!7abG{zct;31v>{&l+99T}`
zJ>@7-O^>7bjEjWZf54pWCv)-|Y|U6Ecw+iCvUW9AAsujEea;>5`Hw)daX!g|Iw{7h
zzbhdfuwQP}j)6g`0^8!jNwtC!+Ed<;4tNd<c*tkXHU({O&~(^(;&S~oAsw(D7avo@
z<!%pIg1nWl*^G02)Q}FCPpnWhzWH?Rs!hUCg<A{39D^_5`UN_M%)aiMgEf;fZ}L-v
zRr4LwARX{r_A6KCI+8U^{XTJ5t<^{8u?wUF=Hqa_(Bhux&5Z3ZH{<YvsxN|&4mhq`
z8`M5;KFNNIbq>m7jW(p;iGa%otjEcL`GR=|t;4TVr}*EiJQJ%#bmBimWQk6<3w#Te
z$=n`ZIqHq*JYMGgF<;Jfp#0#^r>pmJkBLJ%;5isNJ4M}8hj&HNg#SHt`K2``NC#XO
zx`tv|cRS-KM5e{Fg?}4Qu7;!K?7sJn?h<w2nF{|ADd`%1vtmT&7Jd3n8&;egd4N(_
zZaH6!3!;;3qqxKM?YPI)AnM*|XTnp0kPbKx(@l2_$y3JgO{3xmxwtFXcAlf<vu<0x
z=1`ibJv$?*hqra=bS0wmp}Bu`t@6b6z~c|5e+ivz^G0;$o>>$A$QBALmgM=n9Z@YW
zj_9ab^$-7JoN03<?+-f5vx>L#3@x8TMd`bw0nq~OE+d;)i!<pf5gprQ@o&zoF_aCq
zi4RIGqMf`EosXj~5rw7IJ!?nl7Jl)LWQij>mNrK=uCAwE70X#>VA$dv-Fb?ZPlNSi
zlC$4yPTh^r=AZ6RBdA1lI%f`T{6_cBW#<{aTBQ#p^G0+yMngr<j8(1k{PcKpSj~1{
z9MQ=cTiq+!o*#SYp38lPFTZOi3@#sVAIo}mM#<E2Wd7CZl{cf}t~One4tQQvm&Iqj
zmq^ud8RgKmr8_nriRfH<o{F<|)v+|-^60a@;m5Cu=(rXPmnPF`<gB-yS^gYCeMpVy
zJS@)jDA)R2rIq3D=A-Nq)D?=B^LY2yVNL_LK21h3a*7v{2f2_Ac)z@E7bqaN97z7~
zBz4slWm5BaNC)g!XFvJA0L{COj%k^LpbhILeMkqq@5X<~Zl6+lhDYjTZ=~O$nWqe-
z1J)CIeg2WZZ`Qv+n=Rqbq9N6IkPdk6bXyGS5ex@WGkh>qkYoreYJGy%ujiI2C$nq&
z6ge)_U%cFuteOVtfb~ol8JnG=GjYDJRB`XTa0<CCqyw(gPYaxnUn&co{I*nJHpU;N
zAOq=u&l6-FxNa89i%VVoK;qZ2AW`W8>45#JG6=_i{`XnMXiR8Is;Z)*Afh8-{r0OT
z>0j%Iiu9TN7RA3-L*V)a*7KC^(Mh8rckhK~E2-1EZ;lm1I$%EDmPxNj&!6x582vr?
zfxr<q9Hax*BR%(~O>l*x`<6tJka!5qr8Gq6Stsjub--n>^OIA2X{5C=W{8foyO$LO
z<DLu8qyBd8sv&1iL?`ti%Z~fK9APl?^yBn{3uU-qw0<$=dOYQDZ9KWcbI#+Y^agzz
zqEm6LcKYj4iNepiT+9Cd`y*>+h|cj(H#5(E*{yS-c*2lgGoHkW=%gB7e3j^?6>8ae
zvr1=hkr@|+mXBHfGJ_4Ru~Mnd$fb^Lv4S*2hm`2=uhi%E3eE9bFZsHS`OOd=8i#4i
z%rKUQCw2R@7v~t{IT4);sfDg}yMETUkK2Y{j#%Br1)}A%O}U_#VDim3o8LIS&af{m
z4bkD^?|C-YoI3Gw)1CX?Fm;9*q7!LRzCm=b$$3XL#frh)#Fi7$iB_dLP*+$T_uye^
z2*PP^;U1&qGcp`jA5xxWdQCxLw|>z*GY!!xG~BnMOFd+seKN-O>Men*8KScgZgL?O
z@1<j*`NJ~fw8KeGNC&)sXMWgp`2+Ja4YGY--PY-I{&<iMxIatYmCb%M)g!i=W~ldC
z^Z2X!M`$@WCzuHB&kS*I<o~Pd?q%i*Ky+~a69K0KN~&%gb}8Rt4W^WVbin6PoeM@E
z9~BCJD!g&?`l0C;5o$<>8hj7LjW2w!UnsYH*}?F_H@5_3NC&+Bp}&7^sd2pVmfyLm
zWWw3Mov`(Q*O~5`>N7b09Y2YXgy)|<O;79up!KV_EG)|5{t_)4<Hh=-O{JnrL`TH`
zE%!|x;{%sedH0DrQciC~r`43*_jaPDjNZ@}@0sA=*5Zf`>E^GWjY3Vkd;Gl`lcqP7
zb{-<;Q)F?M|M$ZI=F0<ApWGT%D-oT2>HS^F9j@$8nu~Wcu6n9^BRckmQ7`4b#g1he
z%c{&=AQ}}%bUx=bnd%)#8c`1ljl3l0kKge}%ZL4~g+vp@r?!2ud-a;6J7SfP4!BOG
zEoD-(k9S7kl1=laY>0$HAsui(WQ;MMWWH5eboR_R2foR4r7ffb?uV`QGu-`xZNCZT
z^Oik6nt$Ylbinm~nRKb*qP|#;+6!0p#DOk_RX@0#!F+DGxQsI07uhz9#eF;O>)2V3
z=yadfKDc-xFQ}cfIWz?S-Bcu`1Lkv4pUyb*d1m+92lxqzKRC@aAssNEu#KpEiBf}=
zjrQ<MoEm%kOpp%P_jumB`(2Af>jvEvNBu}l-F6<p<qX!t+Sc<rdPY6Ey2yrY>srW*
zdPoP%Cz3ja>d;`4kzb@RKYSwZYyhJ3m7V>J3f{`ZwRQKHKeWRqWFQ@ITtcrIpM12_
z+4tk(98eNaog{{Iz;T@sJlkjUidB5g>9n+h)}^`D`*1mfPPf@C<;Fv=;~tmAqO07g
z216ko@Hs%K$TOX?4#8B8<Xo+RoGYtlkPcW+!%Jp0wtmG+M5LC|jDk3BPDlsLnTT}3
z-SjpMPW%(;d(-CZky&4~e7cH$JhFO_7gZOf{weA~Q&%pclh9DosG{ED%0$H`<2_V<
z+ZNGzHu<#e(z{Rej33+w6vy%hcoCg}ZHqMmr4I{_+q|fnS*z-2ebDk5n7#8dxX(%2
z*-ZJY`EDI;E~0Zi=Aj7p+)#E$a}2>Wm1CGKqyxTRCui$-HR1%nJbw^n_FYB)VKYbv
zoQI>M1%l)<Epasut%~ta92jsyI^cP6wE6PqxU$Vt+77q7Y$awJR=v@37EwyC3_5mO
z#3VCvknB%=LouQwWFz@T!?*t7MM{pv7OgZg7f1&jmq5fJBgJ*6_cGDqd+jbUvNDhk
znDct9|5h$<amexwSr@OXzq9cm9k8C0@ddOGJn?b~^4GOaN$dRR@<Pj5u%%*R`nkoE
znQ2OkSpWLHNJQr%zO35hlyukq_)6+vkKHy+NC(`<{Kfjcbe_gfvva7sJ&-!u%LM6w
zIs3@y78qrm9>a?~o2=C}usP_7mXEpS>Sf~EpH?KdTXBK3qmSbu9k5?qN9nf(@P4W?
zpD6j$VbE@73+aI43V$zZ&k#)P7PfRM{$-ln6<$aOtmn~(GbS6v_X?6{HE0`0t`h8c
zz~uv;gCSNQe(w-JFt1H$r5gB<@T?2c0mpUQ=IKsumHlIuI`0?Lan3g*5uNF*!^`)+
zPu?1kycV5aOZQ$A(Xnn|e?)GydFE{NFk_4Qjo;LWj=$Py+=Fw|^YVCn#?l`sBfH$;
zat8BRSFnjKkUUdT$bGvuDTen?B%}kbuP;J-!JMhTq~;X^Xz+`k73d>6EKO`b4e)IG
zS}pEf%lTg9%n9j$<8nP$Iy!s6qD3}3_%zJSEe3ZFEuRw{$t}X?E{Mg;HBDKJzc5Zi
zbbKD+B`C_;v?-Fw$m{;x?l*&U!1ZM_aqYu^?+cGsMYdK0p0%Tbh|a>{b;buX|6D3f
zyXnf_1v214I$+MNh8;B0Y%QX#OpSEO<~Qo=-OzIOr2Jb~U|;w)vU9MVzK!@u0Hg!X
z!^zF^<MMhB<1j}V(K)^&`ZSQQU><X*5gld|+Yv+EpW~P_=n9t)I4;K|#xKcZXXr2|
z4bf2;;c?mjx7CX|wusJk-%D>|-;kWa96?0qiUuzF#lvV5%-L~4%SSaLd$g_p(h}y>
zBRZoo_&0-!DequTD5Ar;8uG@{`*sE9Xd*gETsKF=lv}1ShY8Uk&p*=4r}(G{b8yaR
zIS>5q^e_*`YsZ{iM90N7OYXd*LOkZUAUZyU?%`ux)#jKZj_61P9e*aGXqAFFc!-YZ
z0M6VZa=!(0TAk2xrt4pd$!J_#$DBw+M{a~J_&%?ZBIf8LI*SH;xG(kM|BZ_i(UGZ4
zd&e&2sDafp>xh<*1Lq0zWb3O^m{W}CoPX#sLZ%-lgE`)aPKf)_=pz?~?)>#y|1t9E
z`Iro(1D>akpJk4_&#N5696UsaL9pSw7v*<$%&ET%mor#TErlGF^_YYU<^&)*kFGO_
zX<fNG|D3zO(c^vf8yQ5$);TFIvn1rn->HvsbOMH?c#sZwp6+}P?zrJN9Edrs4siK^
zPDR$Nzb(zqKITLsI#0zy7PZp4i?7eBjL9yGROmxG;Pv4mQKXh<8-@IuGlNadnaT)W
zNC)hD({fhm@9v9hm@{h+mk;P%mZ)1N&JU!<oLod_^@lF0LL4REyzZv*4C~akEu!;N
zMLI{lH(wHSco7}JN1rb7?S3)GoLM`xd~!PcKOG%vVDO-$>9~GOwk;RYx#K0t(i-?P
z1Dij#kPbMX2eX<Ar?Pi{V2&W7L+%|Gc;HK`kL9yti<VE;BcIL_Ml*((Q;Fz^@#Ya_
z3$MsxjyIz7Q{KM*LumL(`)Y=aeaXd(;)qVpSfP96wP0!N?{Vzdpyi{ea_AJq%bn&Q
zcAd`Cui;81qyzrllXC@wwcA8zlO`ulPfBr{smnl)3!Fdd+*ex!n0p*-VtX8f^rA(H
zAsz7VpO)Ww8aPUH$&_EgsV_QozC#nz0rx}2V@sm{G@qMb{o;glSb_H?*o4o8pHZyC
z{S^<f{;2aQvl!B`2AskfJ3`jxA3t7``^PmtEC`Q>+@A#jC-KC7>_x-PleSKepP6Zg
zzU+cL2f^>;P;PGPH7I}XWJ#zKu@E`7JP7H4zZY03I2^L9zN#<bs(Wl_(?Jbe5BTrw
zI#|Wh!yHX+<_s7`*|Dic;vnk*e?LvhC5?Mztj6#9N?WB&Y@V|o(HZ_axxSQ4BH=6e
zQOo?&^mH1e13u4;vs>6=ujW6X6<=>6J+kcL4e5aAsqdm^_&rU(h=Y>XUnsIWro|y0
z@ZUkRayH1PcrK}D5*E40Nf}a^K|0{Ll<N2yGCO~d7bkrrr`+-tfUO5~8rQCrou(ib
zo|rh}ShP?pM-5pI`2IYjd5ZnHAFoKp`c+TokT*u-K|0{N;BHebbu{~IHr9SAg+=X8
zEit46zSs0}-P|honxxh1iK%RYOaAPukn0_En8j|Ltz53u#=cK72<d?HCnI$KVSGcB
z!qOp6nPv?^9_;=DI>!k7kNPAwu0LYVqzb<Cha2{K6?FDS-M5(gs>{A>YH7z2e-UIt
z99KF=#YFe7h;i}OgNwX&XKe=&uj_hORQf8p=i+;~c=r@-i>%`jomEwnvpwOTFSr%T
z9eefi?OA<9Cow0>-%4G?-+o8`BLBa9V<tpLs$NrnFgLHlvS5aqdzb0YAmnu&*e|Cl
z6^?WnRij-S|FL&3E#%@6o%Ybo4@L2!rS+ou0)rBx>H3I{dxOt>N{7!}%F!nxxr$Q_
zOpp$E-7>*=^dZGrfeUGgawng;U(drqp6_5jM=m;kz!heeHJ_*9NnT*Tng;2B^*GDr
zG`-f_(Rq~PMszxa=awy`1J+Y?uD36$F5#xHZ~sdA@totlhz^y3?Kj(XpP6sG_M2Aw
zq>pAHuQS1V$|J1fJ`KOfk?v$!q&HJ($c1#k>pJB^X*<$wx~nBUl9gpb7gD?-9WdwV
z0E;hUb~7ZHBZKH%df!#@g?gvp#k;)e+?}NkVn_$fhjeuLc$<HU6y~&Aqum#@SRJKu
zm(xu(?nx`z4V~W)MRb~lZgHjwtDM=XN<ZbxT=hyB(TO-cUgVXfniz;Tq#h(H>_d#`
z<UW;u?BjVIf6!Qg&!1srwABhNpT>s`Vh_vwDQj;<H_2~pO@<;m8e%z%MWNPJB0Qhj
zgkzunRfcrH`8>wDa`Oo}f%UlHOSg+cL!X!sow?gVAyfL2dSxLNVKULxBD0oo`GECk
z2YCivy8X0g+h=l1gFQ{464C+Z^Q7Kh-TI3p&zt<bT&`dF7`zdkV1g1?FN-y<L=7XQ
z-y<0~aYTny-{Q=CM2J!2Fmn+x!NmC;3%Gp1anVuB;U>eLg<W3fZcVG<Y_3FfIQ03*
z+P~MuiNAi9wX@Po>W%0S4F5FJUD(5O+O?1=$&ft|M|6&KCQ{^5XXmKv3PkJZ+X?O5
zfy)QH|GM~{?1O*kz5bK(g9IKLU3r6$4w$n9SK;I7*Z0Hao<%7Tj7n+7BRWf;t5z0z
zwNK}@(%6|K;5FzYIs)FBZjwt=@pE?-OV#fDabtpXz;h?|>l4zNU8;?bvV0?jAyH8{
zbGV$rby_6)V06;?R^HU|wd!N(H`<FK9q@iI^0{#TuC4Mfe$|91Hp>L9K}ZMeyUaTh
z)7e<V^-Fb9hUI+vq?M2kct1$g*rfmO=jp>JHmP8(CTG=1NC*6WotE>_SJGiJCuT2@
z_<!uw_?Zjofc2C+MCmpN{e3k%>HdE>yVGze+yC+7gwjGIvS$w=COcUxONs`SwGu*v
z5m_rsDrK8wD|?7annY2Aq)2J(A`;3H8C#*^|NTEW-N$kLo?OT0es({39iQ`kUfW!Q
zYL=3!?}y=ZI5F>SCT9)9(=V`EqWdxpr-R-1@=2OT?4#ilbYITK>0pn;SI29MKc8M_
zb6f0Z^mjgf88@5`_B{0{DYMt`^7<YAV_43?<XoCG(DC>FE0ykQDT)5R)~Ex%^8!0h
zgsc9oRIQi0kW&bBqNTPMxHXd%OWxiTu(!~7<OXzt-<0<atm$n<jx^ADW$vnP{MAC!
zx9_Sr^Zm_(qbKn7!S4H-19QhTuK741hYEBY-m+P>>}r)pP9V_n<4yL^zGys;96g|O
zkg26Z#KwmkIjlhELA7$%2F?fnkV88T>-@qjbh_vL%WKF<1v*Ez^4RY`>e>8`aNrdo
z*q_4zr-MB&n)0r;QcO<#y&D;Fw#nN?SOn<!r&r8;h^YR&i*wqmHHzDE;26F>*m+t@
zImXYaO306FOTKSjW1W$W)4_gUFebN6MJJ`h;@Rft;Bn4`-=jDk?0al`{~YaQ_hjds
zB4Kv=|NhJpbX`tfe<cSeh1+(Si1d>pHV)xk7j~X@+2!{?0|PD7r6se4Sho77;#?Q@
ze$n`QR@$;^%bp4=Ma3z{*NJX89qj$xVES@ivJ(HXf5$}*8klkV8UvjxqDL8j6B?|)
z1wUYke3{E5jnly%KVn4;54RZZin6x6GE|cpr!r~}I}RDE_O3HA+nBT|@ao>w4w0oo
zpc5<>-%P*%O&K|EKu7EJO@jwK&oq%E4Ro?*DjgOxO=OWXY6t666(e?<(|<+{IfX!{
zy)&QAl;@)BM4Oqb8{fOt4X1;>f8E}z*qa$tWi9+8op+0Sw-XVkgMF@hI;fy|c4%8|
z)8ypj!!LRMtT-L)_YO5SSDaH9W`j4>nzZ^Gv}7#U!a6IziF?bR7wfS$z~so%9?eJP
zI34WyepcbuQC-I9$LFM`3b}XGypO`^V9&2j2X|}Ocb+4Ug*EzGB`;+g104$wrmXul
zw!SeZ|D0SS)}Y0T)4{GQ&x^Al#`m`SJq1rLS$e2aw+*Z_ha|K7T9f(Zui1s{5yPpx
zsX)h_m-7nSaDN$}YC^B*1CHC)K!;8EV%Dae^}h^#bo$jJ)hu~&I@rJ8>pAL1s@`Uw
z`Gs=K{bbmr4qgZQebWZrf5w3l_K}nJ^3sbrKUNrU&VxOEu3t&tcbIB*p}Fr}A%C>m
zry6T~`-MH<TR-gf^zvJ>aoM}M%9Vj7Bns#Z?9I3v^xC4sqF(b4mt@@x38#a-Zb+D|
z5jpu)=DFCN>U9-=`i@ECbg+H4a#=Q<mTfQj!nvQmBk_0Ms1>Y_N3F6C-|?+{d|g&g
zOl)`hQgJ%i^J`~`3h#C~O9#gH_Mi6~?DPx6>0sB@+{7rB+1r;<=Gw&U=efp252u6e
z>|>x1ll%9}I`R3Bv5p>cX}mZc>^y4PN~7Lyrp{~&EZjD*Q#GsmD89~EXH)2pd%P>7
z(N_Oz7lps|&Zh#Mf@i~2w>!PH$gu`GF^b9Ey9@X=k;4mg9wqa*lUjzhr9b^Ee(%GC
zME4O`A920$<NgaRA8UTpkS*D7yi5f;wgP9o6Sl-^BgY!(q{kWY$ITw<(Tu-&$vIP$
zix=pyoq2V=+w*qWzd8Yt-+?D4x(~zpL>YXQe4!D_)|gZ8nOoj}BNgaq?3YmzHBFmH
zzVN3qC`iWI8mA+Qc^@Sv)tKjO{AP(@v$>^7e^><Cr@Z&PU~w~dmW#fBsQ#CrTxcJu
zA-T^S9=ByUUJx`S_!en+`(W=E4JvbAo;RD8vnq>@OsM@SbHLdL>kznC{;qB0r=#aX
zX`BxBx<SluBfjWf`x{-yMlE5-k2KkqJ4w2FQaC0&+)1~ns}QGyy{`Vy%@6FY-uqDb
z9rs-e$_t(_oDTN$>Dg~@o++CD9$xFg7FMS%*%XM=!9H)ab=_V1J@oZiL*J`QEa&sX
z9B?|=&!>byJKwCTy7gAO3-=6AZp7)~bg=h9=1V^$w;bD;mU}j$?ZH>R76Q<5^Efx6
zmMrmMwy141iI;V5zyjaCW9R9TF&3!~cydj#kYM9ay19{x)4_KBmT~y{ifJUviCdmw
ze}{dZr{Z+5=f!lq{hH%7YC_0y06N@zv?{CZsUpac209n@T+(#zT739@Ze^>gjQk0@
zIlj)=^K?FQWxm$^gE(@iKu1Z=)4R0aXg_kuI2~+fo!NtGU&YQCIqi5<`fW)+P#vd(
zU6*3=e%9fSLQRgJ4`v(?ih8<0!q*4;Iah*X*lq7eYJz3?q9*IR5zkSa4)%C{AiP_V
z!BAQa^(n{cVAplIf=zVOpbK|nUUpoBy#R9{P6yjrpizG7cE^sl8QUuMOc93;>EU#+
z>k2Sm+P3A;B}>or>WJoo10DpN&i`3g{MT&Dq<dp$9xi{`!FOhbb_m~oVdp8)A`v~G
z53NVXPc}{mJ5QXsX1&cxGaIg`y0NXUmkvANbg<W-7@w{ZV~vgm*}<_`PAR9i#yB19
zeyIs9Ymk{5{-NWUfYZUQ%hAXG4tH@90UggYGkl$~PKx}7Q*G+|CZ;Eg#NPjsKSKdJ
zx+xj{rR+kp+rOVGpx-|gK*H%@`^bmp*aUwp&R))zd+WVSyTJ=|evKr2UdP6=4}Fg|
zU<&J_W+y&>{?8RUa<YNWF{W#8OSyNEk>db#(lgx?JsbnlkRt+g<XLUif9EdvA!pzq
ztk3!^{>|g`vN9_gDPM?%WhNWwtXw&FF<$xV*#fRimciu2Qw}&C?D3ObF4(!K%O8z?
zUP~J2==z-rwy@wX+u0#iZ>oB15B&hXKG?rk*{2Y~T3sFQ!P{97zsV-<8{T=a_b<nY
z#lrsZpC!BZ&{K|`&pgPBb6wc;eY;-H7~jo9Wf5&n84};vWx8>$3+s$-?0s~d|7~@i
zdc8-J^Q|qZI34WoO@zg$<u82R)v6u7zRG_xfWHu@gMEK^F8|5qNZs|$F2C3=1x``p
z@H*K0PR)q))bVY#gL~IM33s1RFb%{x54O*r*Ym>XAHLrl%B!uwe))!*I?&lRFjKPc
zUTH*Rz-3XMgP#5iCisp+?7BSOYb!hLKV`VqiS7J}Z#5MSI34V|5{eyJr!9V%+}=X`
z+Io$*HVWumaCyM~Z$rrP^PRUBtnTQu8sl`Z=eyP(nSP@i%#utW5-q=)o<2(eI`15R
zI4o#HU2=<#whojDz1F=SUuW!jDix$K78@}BxFp1p;YR8Yj|Q9$_Vek0&yL{A+w9vS
zOioUg`vsh@!RcW4-7EOEimk`9lFc^lll<~td=#7xcHaf2)~6jZ*DkX-cE<b4Ae$Zu
z=m-_PYAadjzIuLV+A$@=kGce)bBH~>tbSub;v>4~)on*;pJ>MT_6xhN(2enoJ9hmY
zobJ>T$u%+wq5vK9+eVXpTR7v)dc3$DV<|%<pi`i`@%+hR8c%M_#dpS^CifA5&i$+F
z{=C}f^;~doaJELy!hM<%tWP-S%=4E@mI8v;fBv>}UGs?obeeL%C~VYyeCutsZ`}`-
zH6A3K4)%EV{%yxMYvOY8?60p>li%~{A~+rFz7K3YEq~!SKVP9hhO*k3z_kO0`1)Yy
zk$?SbW=~77r_rs{T#_4IiHg&~&NJR-qEW^7Pt#0S`B#hSXd)Tt7?!ViSzP#H&!yFD
z-!5G6jtF!lC1}Bao^&*v)bd-~!p3PuH^A2iyRLU7r!Eukbqm^(5?*X&8dad;bg<WX
z+sDO!o#L*$MjS5lnq|IQ9*EPy&f|6G;!t9xlS(RCi?&Plo{~DyxwFvjV!bB4)BNc}
z(Z0lX%Y}XT`e5H@>V}Ga+8xN_+c7h{CuXgXJPqiaOJwFba3*!;r>|E?%(-OgLYxk^
zPt&J!0j<-_??%R4p5*!PpK`<LVE2o8tI(_2jw7{cEtwf%`3gIUI34Uf{n@EDt`wCw
zU3r}m3P(!R>3i{Y#?B+a7%%=)K4+X9#@;8&8~Lalr-R)uYo@A)eLJ*fu0Kd?3C|D>
zr{Hw3>*Del=_w06-#q>G(D{k@T0Ig@2m5omaV?cWkB%IgJ(gBmTgO+*nvK)J_KDum
zboF#dh7}X(ouYscmy#P!2m7AH(RMi}JuBQ~qZMn$rwYeIc-Mt}A1=82d|a-7#Fsn$
z58hK<^_GY@=fQryP-o(nzcHu%a3cJ`b=%Ni!+JO!Y#)UsU%##*2ZNmxwN<)joYh!?
zPMSwbg_qWvmw%rc57ymFF{JImcRXY7JN}}*VVW&c7Us%6P3xGy=w#z`u*b9X@Rx;L
zcJTt&$?qS%R4jc0aXQ#}l0s{)21K3B_t^TjWmIA8qcPCQi8ja<9~mR2<O}+|lz3Ig
zi_^iLUsjpQrzZCrN-HQO74OcO=k3<V*BRUAU$u{yef2?kUb51Kk`_%7DozL6$L6fM
zscStG^T3(7NXHI}Mi@>9`|m*g7M)F#PU#mxzi)+i9_;b#owrBMox!U8W4G`b`TXZ6
z0&&iRbuuF(uEa8x+|yVQN{-D69MJ<hyKmi9{m@(V(~c{!G)*b*7b{K&+nG*w(7f#Z
zp*(Y|`N{}?QhK)@zJ13YKLH63ISB`!x7F7s&9oSQ<x9osVBbreid(8>dnp{XMcT;J
ziE*k4uY>KZC;I7MvR176t#Z~)PmY<7IN+QIyDn+r?CU@I*N>FZTs1ZAdn`n7I@sS&
zp+0!FjgscD+h>2jg!=kcUv-=gc3ovh=Z43s_{~o){+WsUWnIdE)4{Im4!@U#oBF6(
z$moUC^Map7YII@y&S5wA{bRLS&O?<BhyAV}(!+p`n_8$|Kd10Ul_4LWQ@{1edN>{I
z-*fO!``K{Z+9i$lbE+nCY=^!vP6ykk(mB3eTjQF+^aZO_J$t4iR-6v@@5xM@Z`@xX
z7BakXX|r9b{)aWGI34Ufz3aKpT{|EycW)#A-hFG*C9Hvt*7E~L?yOa;lS_^dStFjo
z!wYmaxxIBc_9=w9tCY*-ZbBMgw+_DJ2YbJGC@@hYZaV&vRf(rQiorF3iqpaN399FN
zoH^W)ZZ4J6^}bd&oQ%`KK1Y4z%yuPbwJD_Ky)LzzuKP{G>0sxvWr^S^NzQP7p#Ee)
z|HpfM0?-+MDyPKr_D?~SK)oveWONKo8((MaJkyi>+2_rD_l<v!FRqp(a!`Pdt;JVG
z+byATtSrViWgdR!BLST>Z6brIu&Xz62tcQJpg^9uL)j{0@XjZ>!a8}H7OYQd?VWEy
zf_b}<LjgLQD_;HGwq->YIV7ml+@bvG*YOnO5P(jSeyYx&WhFD@(00T6NNipZkBVmA
zfE)_Y;g_O*O;Ap?@F=|1peB9m8VTqaNt+dN*_-(whX8a6YE=((-ek@|4owr*r~5_S
zW5%R6UC5yTok7O9yYFq~XOTk!I@hz98^_H<n2|#OI(C#IhZ{B$PROBY!1_2kC^^U#
zX<tMR1?ULo>b<_KbTS7yB%sqba_d`8PoEHS2tenez-9pj);l+mLsN(K`FSt5{nuaN
zNaRp}PHRuXzNtbcZRC)EPXB1-@XwbwosmNTIv1rWKg4YrtB^xegY`Le+_y?|e8Lks
z6rfWfQTnN~i*Ak_63}T8=hNhf%{Yi00?^sjFY$9|>Ck87&{Sc4?tDKmZWEDo3po^^
zGci8R<Z&?lFLFpg=TGii+3>k#E94M>&gp<;0&A505OQcLus#WA&Q-m5S>}oy3eeGg
z!Nr(!kRi+5|HunkTy`W0=rG5<&y!K%HbM>o=)7e#3O-GX2}BM}8P>;s_Z#vg!9xr=
z6rdxZWOgXz@!hM)ApxC0J@twj?+-1=Apo7Z$<ynG74#1vho%JUb8TJIo9T&+4&+dP
z&b|~~c7FO&0dhz{r|wf<;L>NR8*&IhhuJ)cZ-m;SgB+S7tk2wgVZ*2Qb$%d+0(5rv
zy7zIW^ztEx1au~}JTl#amBo=m06Jj{h6|NlRmI4m?Sl2Wm>Dq_ohxgP9175>f8D}%
z`a`82a!5dD&4ueh!6J=EkV61EPGSAN`k(nPAcsbT^$9vJ9ub**_cwAVK!^Y0Y+0&Y
z>*{ex0y_O6dWWl$-#MXq2tdd1SGRITC6gC&XbP}CUn87bk5lqKAcq2UEW?@K58mb5
zfE*Ig(eSbo{$l$e2RQ_w^J$UvAS>MPHgah4us)Z6nXFCzb}Ae>6re+WL&(joxnzJG
z63{tXdX^<1-FXN(1fV19<a;mdX@nzkXggtj*lU#4RL<y}K@J7zD0PYL{bu8zf*cai
z$zFU}D*1`|zxx-^$*5@mYVq255Y0oAgY_w$Fxb1SpA>)`3eX7-mY>lpzAJ?s63|iU
zZxR@!MR+5J0CWr)4u~0YU#LJ1O%~QiCGY}U|Kdm{awtGY|CZVJcKcgLkwXGH3T{Qi
zgfodO$RPlo@TpJDw6sJI<j`bbedrvVx&DOjtIr!0pd<hHtn;F{Lo}L)1azd#c|YgQ
z9J-4f0?@g|#by3bF+m$Sv>mWM-Cg@gLtPxJpLZxgN8mX9Y+!BHUNjF0=+p{k@)Zt<
zy+RHF=-im2etqXNmw_CbG_22omEMr<d>>8ZP=L;LuN;r`p3v*aApxBZaUEgJFSW7A
zApo81i-$X9cBei?4owQyhqxf?cgmt|^}b92It%jKdzXzhSMSRtpmWY$Wpry~-XpXw
z0?-k2zN21hRKFWJG)Y(=5i!rUFM8+yJHLR=;RS^>#-hz7XdV*Kd4AQ-hc2>v0yzYr
zvx94A%}$xD7s#P)hxO5q^a)9vJC=tW3eZU`deApUFquOR3Fy?VU4C;@eR2#r1fcWL
z&2?kq;2vq@&?I1ex@}u7MSm=wL=FY$C}e3LRWTELfE*IgkvY+#o*AXmjT{2d(Ibdk
zSx3K9LJmzF*2hAd=g8F%gVpnb0(1;Hc@N!VSYSf)kbq9KX^nv2holAM5P;5O$y(!E
zH)8i7hb9K=Bb9fWy}R=4cH~fi&YstsYWMvp<UtMz=&&T}C7y}mutW|4=zP((8~pI{
z_gm!9L}7h4ZFX~x_{($-ITWB%m*5`zY16}J$RPopUQ@w`yP_n_kwXAFMJaTyjRxH8
z$f1eA`Y8Kx2I&9WSB)GB&{51h_}V#3Ul}<hprdfD_RU8-Ne<)?fX;7M|9Y?9W7)`|
z3B&pn?AmfzH220hawtG&oHL+Pn0c)ga!5d@@j|pdk5J8jeSnU)g|ghyv3OxL4^0Tx
z$7288?$M8Ip2(p99h1XWzJIU&y@nhT(5X)KZn$>bMGH9upi}61=)&mz+*`<@ZG-g*
zJp0@8vx7=AawtG&;HUGu&T7+A<dA^Qi1^7<kFUq=m{qU7yi4kI4gsfw{dvgvb$Oo#
zS!#YFr&|zTAFQ+C_S_~*v0JIg$p$(yUwcw`9KTB;#|`M{$uQ5}<_cp&4iV@WSsOK8
z?qD}Z&Vm4}&)^A`wn32xmylBfbS5V!c>NCdeL_wY&=LHQy7H=P!5=v!p!1;O2)|>U
z*AQ}efzGYFEqu3+IKD#806(m=t+RSg#V&<s$SDLm&Mqw^`B_i@#5)FKcZFOQ$T%JB
z&kfcJpH-23*&%}*BG6edI<J&qJ@8gpYLiCJ^&@t4K74(!^Td~~6P5lkD~=p0(79;t
zFp~dK^b2yxKxdb94j=!_y?o>lfllim%j2}RGc(Ac^TPUk{!u#K@%@|ta;QMZTcxtB
zF)%X`Ib@)-{5`{AX}_%>a)>}DS}#F%&ri$U$f5JV`gH&3^)%(0%tH<p=o}nM`p3nn
zCxRR@&=G#0oAU4%qY-k5Ku2!xjP027MkVCXxnX^ZcC43Fs@!Rg94gSs<B#tQ8JakU
z95T?cuUg|5r8RUBIYgjSW@o^+cKfCQ<j}Xm`pBD#^|M(#IgK1D&=F7Ko?1V{cNsZk
zpkt?+yO?Rbe+)T9ptFImDC**;c5dX*xnO-}^G_98sI{#_4i)IA{yBNmN$o2Ga>zjE
zGiyovi$Upj<Pd?*iiU-#ag^X$<j^@`eb`QEecNrMTZJ4d&?z0^Z&TKj`mYbrp}Y;5
zR=%l_faW0rox!&}ng`ZD>qHKH3#`xcOXDKbzuGn<hYECV=-mIfcvP|sIb@(C&U4|y
z{*8{g$RPq9*Qxzh>T8(XkVEHy^-(VP(rLleWr!Rq(D_hZ`FE;?@xS8-=%^fSld^L>
zDvahK0-fOpBSIzZPc|TjPJs1!Z~wZIX_wP|<WPYQCxzwMNY$JFo_~POqFWow^|AS6
zG!GHzuw37p6v8bMiX8f8SRXU)ACY<&GBl7w1v-~99KyntUPK^=40NQgQx;MTINl?N
z2y}|3oJ-up&BKvHXNUF4QN6%@WR2(QJXD}_e^1yBxrqI%=Q|nb7^tVc3w1n{g4RU@
zIuqe-@=H}emyknegY{Xqu<hJXWRQa#D$se)Y0hBEthIXGAOoE*&reQPo+3R&^ALd!
zSufjHsmyK!IrL4iK9*w}gI)~g9Y78h=p2@M#!ppeQ$!9K=qOF;ac5UOi$)F+=rHOR
zIa-~%z=Rz7Mpz#w{Vc;d%TQ+IP=U_B9a<AFv+7o#TgX7?aYe7A0N>K;b%O|W0zWq%
z_#vrmfYwFd0PEwoCM0+M){%S2p#q(Z<Aw|-PI7mVLk2q6qI2S7PA^<X4iV_wn>AXu
z_q=a0a_H+}eX`oKJq&)nTYb)?0-dGj^MY<oF12VLGSF%8_tR0~`=*N=BGBo$X}bA;
zzs|oMIdoQ7pA<fxvtwSe-N>N=9huQT`znldm61aRI$Mvbv)Q{$ukJe$=rF!5nfUP2
zeG1J(UkB?`Z}n8#Lo0{{IaHwIcW2-C1kTfH$RPtAJ;`Uw$43tR_xT;@>}zVNS3mpl
z8=8l{7S^Zti}jW-Uq9?b4i)GG2|91MqZ1^F95T@9+9=!J856zwUW*8H_SCl$O#^u!
zpn2#lus&OM5hmsRN9B-11v<vYFE+WnTr@@w8R!gro;ze-;r-wB2k7V>I$3Y5f5{)s
zLuZEdiJWofGgQ0t2su=sqo5RVR{EFF>iJFvI{CBbPS0QHTYV2n1UiJF6P|WLg!O1$
zbS79I?P3<mtwvWXkwXPKVr&;J+OI5DAcqWec7F3WwqKvrj~pV<iIz%dke+3Hg&g`C
zSRd|KBD>g`R~E>j0-aC%p|+fy7PpW?209;t!dr*7X{<g+5rNLF6b@yU1D}7QdFYI=
zKGAQ-IfZY|sUU|6bo6bS)aQ$ajv$8&bTS#;B1E5mTm8I41UflQl-$?Z_cGBubOu--
zop(}c&lR*~kV6GJ`^v1QUKqEpUdPBlN9>oM#H+`bRzL3$fsTY-%>k|6y{p%G`pVyx
z|NkH6pLzN}|BL<p^pIJ{b9Mud^Q(P;&bF=}d)1Z-)saI6I_d9sUs9KGJ&GJ6(5WJ+
zJ+QW{SbdJ7FT?tjdYXGYP~6Xk=Ai<eK&|3uBR9Q0kV6JKew!*g=_k)RBZmldVl}@=
z<ZomRL=OEQtj~>s*BjF`UREQA3Uof@9e>Wh-^d9$WT0al`$X}<Sm$2k5P^;lqfpY3
zo+%OJ(Eq~vY?D2Z{`6hJ3FJ_L&TDJ7#iGRxyvQK~9qoqOucVEht=><GK<9(~OW*g|
z0;}%<=zm~+eA148R;#Hxh}J~~I$w`emW#`at-co}10Bu#3u2Bg9wulWBGB3JuFkIC
zZ_VoaUiuQOkDHr6n;|(u3(Z3XIwCR_+_ytrKO%<=bd<f?O&D}8ZbA+b=xodu_c8wV
z<P37?i?BXiPw#1Lzwb#x4i)GOe|Z{jBd7ixIb@)7+HLe9Pp<Fkc}fI2&m7-9KK4((
z3(Z4cfc05B813k=*nAT?RG_13o~~X_z8!@eGSIosb(~^p%(nVDg$Q(b9o6kO$eOR-
zFX+EveZ-@#oqxC^Dg>>I3UrFH1TQX+y3`|w40LjuHoIw_N?pD05P=RwS&l4emd=jm
zq5p#QkyUzrTQvE;8FHvVN932}FMFw^)#ouX&{_LU-{OV&axj{Q2y`xew@Uh$!}Q<v
zXCBt)hOVcLyWKT@G!GT%{A?UHP5x~ljvO-3p|x&^q5OSXiX0-)DQNPT*&fiddOxMl
z!TLNAm^}M&|HA6?1{LUh4RTq~-5=F~)<p(7zr=$Fg@&0OkwXMJH@FV__T=!a{#+$}
z7S`wPsFTKVMHf1nhYECt#(C@L5_5jYAp@OO%Mxw9*s%iS5P^<m)VI>?mtMD#L!W{5
zNq%!#*hzRW9ywH?<2lRE@aJI1737eC&R12JnD+Mc)%yhz=y)xhe3Qf!vHF}qpN93Z
zyCVNIn)*Z^t&0kDHjEyUZxm-<Mh+S1lq-m;yR5x%2{}ZdQ=R%GKY>2K`h6Uo4(oHT
zB5(57nx577kW`>k|Krj1E4LiI(7MP#$2s}@=1A5tU*r&h4);A8$6({Y59H9NV10}x
z|EB*tH~$+sRG>q=$oI%&t=9^2$UrA_TEE0o(rxwUA&EdI^~L-<<J&!gXde1cSf5QN
zta;48JDf%i73dte9J!6RxY-UlWS}GZzh9&mK6vfF`xnp|-fc?oR=&xD=Alo*`luNi
zhyDCBy?Q;Q0-gNDlN$4NXKT<rWT2z_e#D{I>)H%*h(M<_;I7%tw9Tu}ne+)*pCx%c
zp<n5P&1fDf&?$d3yLVgVp8u{tK<DZ9rcAcoFIT_UBLbbqV&iv(n?9dK>!SaF^_lP6
z%@P(ju=>7^3UsW=1&v)L|5ksGgA8;sq@GXRagN)A)<pz5C5MH}Z)j$WB8NT>>%-Q~
zwLgR=X^k8z&>=6Y-JzCetUf1@fsWCsO4HVT0;@llLIgVG<Ww^`eYR_8UGy<n9~tYj
z8=6>U4Ut0yItjg}y^U=z{dax=9Tn%giC^q9|9w9QbQppRjypu#FrjtPM`3+}{F|<v
z|8X%5IaHvdEuAZ|D{$_=;|J)79V))uI${0a`yZgAmk~{w8`NEW??)ej^<fw=2pCfS
z{B*Ss&=KC`>&GZ`XZ5`?8R%44>+1jDRak@OAp)H<qcc$+MjR8!p?`<<@!9&2_fwdW
zDsremhmkR$;*nO6DRRg_r}_Zjsa88BN#qcLPF)c1wA{EFA9Cp5V0~_X&npiMwNp^%
zc&lkrs<D>}bSUA^ZtuI`dk8sXpd&XwbLE&qo+)yOK<Crpyr|J<eB;QW55xK_wY0c~
z@!jP^4i)HRvblsVd-i)FhYWSj{e1jzJBf-MBG3`t^5y8UX02u9(1&1s3^JBu`Utz~
zkwXPKqnX)u`WNz79Wu}fmHFR~IH+#uL-P=UPNUAfkM*WIE0IGVg!Q@G*W#twuk{r<
zRG^czl_$5(N0tFOWT3M_sl9c*spzUh1UiQ~GQ(BPRTa@Z^slf!d#*h#yOF?bjT|b_
zIbbK-e`&LrKXS-G=U82TR&L6Jf5;&Mo%f1t6|ojy;*moifc0TgIZTsDjJH4z73e&(
zQ{_?fsn9|W8R%$6C+@!z;3L=huC%7ZSKovPbU0ROuO=^&A0mhT1=we)(4=_Qd>%Pe
zpwn<Nt$6t3zSViiK<DC$2)B6Gw?Q-y5$G%)cHbPqpRzg+y&u-+3h&J=1s)<SXdWui
z*)KLt?`aX*iySi0X>1eP5&0@o2028a<6=kZZh5cWg&cYxtj}kU`AbLYhhvdL1v<)-
zt#356r96>C20Ch0e-*?sn_Sm=x;Or=`PxbZIx1<U4ZN2xZAA|KGptX9i%t8N_`ypT
z#cr?=M&p&KI34W2%W0l}kh_cYovkG8k7+~Dk%%yy4)*8$QaWyGkO{typ*I`!yZxOe
z^?*)qd%%lfhp=yi?p?i!tTL$#K!>GL-0b)X=0ZN9$I~Bd-aFLv!a6spdB+LtbLR~X
z?wHEqD&PtOI#+)Uk!Ku=B&8q9SQiRz$kYQmanH-XFA@dh-buU9pZd2UoB^kU{X0|%
z<;stotm3s<)rIz(?o`rh=z;a&Q+WOQ=3%L_J%!@dW`o0VQ8*p!Jeyc0zG*%Wk379e
z*E%hj^nrxa!5)W0N`YF6ksW@z<&r6zJ9cvra5~s|^b(zT*(WbP9%*0^=N^1A+5HLD
zr$W|I#7%hT<%yLmHmBC;v!?=`f7Cs9AHUp`pY`#i^{Go*gVsPNqHoQclFPI@7X4{;
zO1rKQFHQ%0-Jo^RTv=Slf`1h@r2AS|B#d^$`o!37C#ely&`hAds|tD^CSM42j!+y&
zPgKkv7d*W9&+(u7Z8xA(q1|0Q8F}Yz_P;R-WBTp@X`BxB-}k)zBJ-=S|L>_VLS|=+
z%)t>>oDQ~gv2^(^wYsKD?U$}klWo5kc6Z_HjCGthc7Ei#Q}>DAugLqS;nuT-I34Wy
z^}0dp>|BnQ0dm}cPLsqIM($HAn>8z^_9v<YZ<ogDVAs`^burB<vBN!by6+|>b<TF7
z6JH<fzelh7NGfJ1n<sq8XF$V&`bm}*=RAU#pM?M7nsYh*N6_7_xSqSFL-V28I2|#J
zGd0JW_;ZRpmm#7Pwd)V#XXx>~ORn(X+TrejmFcyye-r(~pvQAVrfH#13Gpv_-oSf2
zV~?L;8`}aS_8i`&n?LDH2d+;x;Os-d^l@)E>K{7gY0quOyJ*U)>&}4l{KC$&{aIP;
zdv25UAG!4uTk<w^)&S?RG9S2?dU#vJ#a7My9W!m73pgF@JSl7s-Y3^T*tB!S)T7$z
z?o2t*5zV<Re8>6d#vMQZlsdO<_!9_pWH_&_Wbrx(b4}&B?Ud1)PzO4m5`PzDnd92K
z2k0tKMQ)nmJx{TH5_K%cGfEGV#oKh_FRpuOQ;zd|$2$I^`wvBreAsr!uj1{cF1Oi0
zpd)Babl)~0eE7sb#I)m*Jyjj2gZ=lZ#rb(Yh(<aa_Z@j`bW66HkATy`u8Ve<xn#%J
zw1Yj`<ogx}@-NUj@LdnF4u7W2jR>BHLN~TiU$tIyvZMf=X2b2f<|nVD7-sx6*<*0t
zhy--LcWTaPdiST97iuXATz~MB0CajZG*Y5EqMkb(GCFQWZ}y<I!}_Q=20YfXDvNPC
z{P@-l327<?=t%##C1tcIuyj_abX^yrwU-2RvdAj80|YwOtXUbI?~IjECjgzDEeVS=
zdGAkb{ATBw&Jh+$YlHP6#N|B|IrV1nfnIcKfR@Eh3eZW)_;N^VKkL6)N4o1bD-#hC
z(1{Whke15&6KD76on?@)A}aytcr1#xomCt%9u(>GaCXhJrnSQQM0cdnPl<)!?U${#
zjhxiar2w5EtN7w`^%pAy^LjLs^SlE{Kqu~~0uOtf!=F0kz#R=0KW`F%&H)>LTcfhf
z%u7Y@hYp#Z*h6c9_0bHbcMiTTHB>5=`4?)gF+u@4;VavI8-1DRA9j8Eqh!neW)jeG
z-+GFrAWNC?a0oG-=4Wx70CYs`o-q92+unRP_1;_!hr~J>4b~@>-g2q><<xBkdS_^A
zkK{`V(Al-uEaaHaj%rEk3H$k9`fMbiQ)9BBs*q#$&&eG7^zMwWA_SZc_Ichcdfh!;
zSF_`)22~X9vt1DbA7Opg&n|7-+|-?$o0|JFXOg)&8|cW(3C1&Xw(Z}r<3RKN-n?K3
zoDK)(c{O{iPE)(NxiU=iMCwCFm0G;>VBbqT?I^S~J%7aaWYPVga`wvwZaC+`em))K
zOx?tNAk0wXc`--#v8(5eaXQ#}G?!y1FUWX`)L-qLmJ(}QCIFqa%`fKfKWb-Kp?R#=
zs-1k_-HdPFvBytW{A>DBgsQO6ZU?@^_@5qyK*!tMi&s&9iTTKht)rEnqM`zEI@ssB
zV_H93Ms$xd2Co<7EI9i<hJ@3>uB&!H&c5zhkn+vnzvhMnonMLIbg<8LA8*C^%VwH6
zv0TaT{h)lVYTyID&e(kqt=8#nr~8Gxx8IZzaEkoA5T}Ff(`g>M|Aalc?3}Z4I3Ypz
zN*GQDJJ0&~Gu5>_cSqjbePEw)ip>XOoDR0niSIkol<qTS=89Z9f2QSWGb>I9yI<eE
z8sB7QY_Q{P&HvQRwNlvq9$#myQ}$)}&gaqB?Fw13pP!A}Tq?xrVAm!3I-)L^eyU!<
zhi7`{HtVNuI34W!jlAyud;1061)}%-3^@B>=b6d%3oxhsODwh|hS{9={#Ju?9;~xY
zIR9riJy&GqANQaT$9cIhpp##@`809(PxzFbNa2MZXSyCv2YWnsWv;)pd&hc#(VQJi
zzi(I+@Zxl^`_7>gTQ2&t&99%l>#)zu-=U*T_>LcJpL`B3)$N_V?w_xkYHhD7G%5r-
zp_5OQ*<u7gmv;!eo9ZxsasxWgziX!FTQ-$xel;Ue*0aBn20BlORQ6Cg$yZT-8YL{e
z)B8u?!TMaMdk2j?v*9^&Yxc{JBpS64=$yI1k^R4)ZTKAZoSXGW%5^a}pyRERt{xEB
z#c{po=0?u(S3}Y`9qe(ayhLF>ytH3IzC(}nlfB=L0jGmK4w>HF?iyY$G4Y?xb#hx;
z{!DAc*BN_#b{{GX<9unBgTDVt#pz&==Tx$+>dpSs%c4)(*Rra$%vj@ewqc&fi2HrK
zUu@!?mB<-&f6U-svVhaU&hzM+;FgU8PFu=v<Vbd(Zxk*EI=Qd&X2)a{U$biTU%0WU
zLpc!W$oNJ%O$?1O1s7-AE=T{hRLALH_v_Exxi?x}Jmy`cTrPJL()bu~I@sfI)3dAN
zufj*gkkj3O@A$zwkH-|Z$VbL%5g!VOn{hQTQ*k=jb$wjma}13+P-Vb2F_F8t{%{~p
z2fOdOe+PM%^*rxO8K<Y+o8OtK4s<-aue3X*PMIQS;Vr&C*m*=vTxdFdnoP(k2Rbb|
z55F+|z1)SIK%kQ#w0ryd5cP-ik)rcbhj!Mf1D!4ow&L$>J0Bot;SH>ho#Gk&<EqlK
z$SDUpgK;<Sn{rzvAtw;%R3@-a9$3fiiyU>JqZ*|iM|*sJb)JQKSf5{u%V{23#S>_r
za-bt8s>IAqJGL7+fk21DT7OR`!D<LO>Of~e$h_&3{MB#BS$GZW)2*Uz6F_qNjhu3z
zvw2xb>Sah#5pn{7&iKw<d$KNTS0YCp=<K^%RLzlIzdFxC9jwpko`vpvC$`w3dCGwf
z(fbkm^~Dnl$O!~GVRa&nZCfbL$WaG6OMOwky^P(3$XR#=>oY6B?w9`K*D>Uj10BM^
z@uNxkAuo{=2z09W_i_w}jV&QZ9q2H&_P)9wt!;>$g<4pj`<LX!b&^K(ky8$Is`d&A
z^jKUmKu#dgaZ?&SW`68J8*<cvPPG2y^{;W_tIk3Vtk2h9(;m;Bu*#r$%7G5AK9?6E
zx^)UUfj~!TUF1X$b?Xh}r~{p&?1w7$KG>XtoP}ywpWlNF86=xof8>+{o$(o~UH%r@
z>yQ%&bUYc4m<w)wA%Glppu;VqcW7*v*$3n-yoB}fxVt6#^_9G8<dg%QD{r@i?P~jb
z965nNr}$N%Q*zk0V&td;ou<FtPgZ=Mh9YO73fAYx`U6oaS2S1eJLN#9O#g*~_x3wM
zXr4fzb4=s%a+ZjG8FJKtPE>e>uD|StFUVP_g!MVwwr<PUIf<LdDF-^qrm7c=v$lRm
zP9V?;Z&s9j?O3q7@9IED_VsoH-p%LE)jccOtNeUj^TG>!eXyS^?WW=e{}}adLQW0P
zITNq2cJrI{PtoVoD4Y)V^Pse)gy*$whlG)140O(3$!|<*p7B-eK6P|>Z2LV{phF1N
z-u8oWD|etu!UeNxMaG8b_&Q_Pb<uh$DZTr5s>_FicEA6={T>B$qECjY4|&X9+1V6Z
zvR98Y(-`Os8;3I5=v+C199E#C#{6z$OLrv;avCaNeZH>?Xmc5Jm<tsnJl8Vba54&~
zgMIJUs5D_V@?6cQiZpTNj<&yvHBJY+UqTx!Ii1AbT#9H4*!)`Hc?~bniLRS>m<skW
zl!;`&d&b~mPj@-2kHb0<;}!<)Uwm;JbSv+i>rMqavF;agI5;P+8Ep}elB!y0w8rUR
zJCCm{TkzYq+}b8=cJ{o^nl@>i4z}~;jvkMyEew9|7`y8wk6&pReFp2ZJ9}$M@t+&6
zdN({*7S6nCFU09!zhC}-PP<>o!q6!|Z`kurR%&S!PG<w=J?$AIzE9cfE9nFM?AN=P
zqd!t`I@mrVTTPV)bQb=p{=9o3BdB<Z1awYWqz80ZJL|c&i1>v*yB<IQI%PLh>@7cW
zzj~fKKH|at@iy%#zWu`9cT&qr#PxRFiOUz#2%#Al$*1CUu${dE1em*{mi_8RdL9ia
zC}wBlbk<__>sdtoi4luLZaE{{>mN^1WTS98>oLywNa7KmlE+K6oUAg}#;jAI&Y>Rj
zWwy&1%?(Glu5_(kJC4`E9?#{|7H7Ar|NXUbF?glKe!AZc=eqbY>+0S3()MrRTeFuU
zpPQ$u$IIzB9qe_(C#-HZQ+M%6;elM9`rXY*H8>sYz9;T45Y*6?RBe#h+2u@`nr^`9
zVCOj<D=f5V9iM`p6Yw5~J1~9fr@k(3taN{Qn9+eUH@03a73cZ21><=9j_se^a9)fh
zEBS<2*geVsPG>8|F*tQ3VPD)HMfBXFhx7W3{r+NTAY)nQ<l4cxO;3drs((52;&e7+
z<|*3Qv#Emp@1Z-x%ujcX*vA{=bg=uy@84MVY9a0#t3#;&4Xg9{c;~@he?nX~8+-E|
z9{LraboFQ@#SL#~?D@{8%y+A^t2Ca=Ilj%Dp+FO_gZ*C5T4z^(jP0G~kl_4638p_z
zVL1D+VLH#9H+~qW%*x=A{J)<Ek(5ly#_3?!)uT&_Jo89|GR|bvJJufFhS$NKr)0Z3
z*X>^%k5aVa(9?Kb<5q}s9(K&SmfuRqMl0J}Pdy*A?b}&RqTzI~$Itg*%ljHVN)C(?
z*2Vq0YmD%&3wyutEwxn?7kG0>d`)BQX)fKsD4g@?VAkb9vgTU6*I$l)FNp|z4qtfs
z_>Z?`(mTGMxSu;SJ(}sj=hfJyPjbCiUKhGN_MlZi=TD&mov(hUUEiErx|M$Wso-1s
z`93mE2Ya3l#huWmpI_dk-mt7JeOlH{9jAkRj#|0DFKBAs<r`76qUkn6lHCH%{lYq;
zEd&KcpT11?qK^Zw&Q{l#1D%yKBg=<VV(Q-VjCgv|cYF;5IuE`Y<{EtHZ0u2tsX8*d
z{<k{Nd2D>1%YP;R_IF#V|DzZCYZq|dcd&iloz~N7zw8=2kuuWey&xo44s>LUZc`sc
zlC?(+gEn#h`kfjGbegpH@b>uE9`AM_x^@r5TdD&cPQRvVPA2^pwyg>YxiR<R7jQmr
zVEaTGH#RG6`;_oXaFiuK$DdvfbmAK=B2~;v7;nAoyXH5?bs-R^gFU}CWyJ`Lc+K8M
zp9l4DI@onRNNt_v`Kapu;Bv^sofL*}2B1UT>Es^1Q#%PcHD&ldUts5{Z0nO@Pq-zA
zoG_qsGbzw}`FTzqa`b=>IeZV}<!UK+<S+monLwqrT3QXc$f+rX^=Tbq{p22zG>n`u
zpu?2Ccx1Zp^+V+70UbF;S&cgOS_$MZ03Bbpxi3R0I(v{)^90tXGwb-6;y0_a$O!{F
zo{nZt&8!_d$k78j0l_VuwVE2d$YB6FZdO}LL*xXmA*ZGU)~7UZyErRHpdfO>fQ|rJ
zk$dpXfGl$KfX-4%!qJ3sMS0{f0G%^-Y@*D0Y?{cac?|2LRCryxB)_=`IblHO&{vlX
zySG!To%Mju94|lrO|7k6XdVWj(>JlQ-Nk5p5IHqeSfA}zR0g$Y*REa<!+?&MK;v0G
zY1d#hj~>vWJ?t0uOAhIDJQe-RCj6BU1JJP#ud+D&XY4C-Y97J**v_kG6ixc%Atwyz
zc;<%CI<}ukM~)uQVQw>9b5U!^8#xR>CqvM(OQFZT135Ltus%0pMDC{AueC=`7|`J`
zzUU{MWcd#{dO)X5=al2iu-T)?VE{V4Je!W)@!#v`bv1|fO@-r3%|lq9?B!DJ-^T4Z
z$O!{FGYoljccocH<mdsN7XMjFu;{oIau|Tln`mFp@9j@#kW*6x>l15r>8`FZ;|g-Z
zfX)`}ojxZsOt&CM59k;O8}1zDR}4oE1JLO;s^9VGrluisY97G)kYq0P1^IfNKu#FY
z89nQDAYF#2f*d`d)9dfx;xru^i5v!?GbLzBGPAj8ft;HAus#)2-(Dn!IL#p^4Cs&p
z_}oow>K2fr2Xt~i)K!+;uW3XM1JFqgXW5@(+vdE)!%m<WXe-y;gZ1f-(8~9@_uCdZ
zVL<2lql?@NgL(@W%v!(gyzD!#2Xvm7_dA@})$?BB_=SDRg<%8+pd;Kjd^>n;$<2Ym
z?c;x~N%b{_us%E!TRk@gJ+6v5VG_iua$GzN=mfTAY@jin&ot?pTI+7$R;~wh%=vDl
zb8>HVeO(b6pQ3eIlmY1QKG;(~T%n^hUp%0_#oau;rU2F_Ve8!!ok0?nk|&M`*80!n
zg#n#Q-VtI}40}FBg(VmK-pX962Xtn0rUo>4*mq|{+_}N_NQ;L7=&&3mYJ?qROSz=g
zXM3lV+*flK)+d|LabNRmBIWM<99x-Q>ftb;Q@B!6|7LtB5jlE5XU~Rrr3A6uy9tl|
zJqHNo_ZWbVz*>GyXU?@(5?zjFO{#A#sL6-*sVqJh7BPE2^n8>{kzvk-urQns_WRQ_
z?I8x%1*v0W1#YAmtDn&hI34W!DDf@6f70FvhFz0tJ4HH|`AG!m$eJv@b>2A@D^o=w
z*!MqR8_0w8*%BA<Sez8yAJFb>J$T*ba5m666U^-@zJ8r}Vf~Ci62Hq82cYwPylXM}
zu5*F&pr^#B^OIo_pkwo{{q;@rmult?uU3jaj~^e%h4p!-MD?X6So<O;8|V-oXw2+o
z7yN@92cWaz+vu~(Q}-SGKgSi3UZkdp0G<24^-kTcR`?Z_W_B|<W%vBR9ax{EK|UvM
z*YNqWUad7{F;wi!20D~o?~|T?3{YBfe@JLb;!$zH>0rN)8&Y$slei=674p%?ddx~;
z${44EJx>S9#{S++OjaEHB>9k&|Fk75P6s<rAV+G~uh_k|S1(N+%)g=AO3#6H&J@zT
z<^AzfqQSK;29@sEeN>?15wM2qJ~=R`Ux2&ai>F<O40M9dR4ivF?;wdh<f-1=bYlw<
z=$tXyUFa*U+|y(|;v5!qDvq8F>+{Xj`kO+nR>+Y{{n4)&wyIKrPKBH8hZ42rTj+aO
zGSGQk=fI+tBOrzxBG9q$;P&n4Qr(XndKRqDo38T=_PShy$e{uqBk6iZO@?W8<dA_*
zB+HW`NzD!U$RPq9<`)*M-8pJpOCz4Xdd)5~^h{Wvn1W>YWm{vNCspgXB<}FEQE@uh
z@6nu(D#=PqT+Qz9@)WxHgPa_Q)4^VU?*GsgwzzsACrtgch}!WQ1$CfPu3QtC)^y{X
zYEJK~kUAsxg$!7q<Ig`+{5i+S-z2wo<aC*SEC)J`ytWbt{}Nl8OoF|9&&0U~0-cgx
z8ES8f(Tem~(Vm0hfA**Y9UGJ4$(3hqKlAx1U89cqw1sq7AA>)w%#=if+D8qqHf}Mg
z>?+6UV2__aPre`Ce(nCB>sINTkA!(^h2eCt$Ioub2XU`eH<&WrKVc#~T_>mqbOa8>
zZEe{r_TbmG0|IItOF;}kM^gA$QDoP#-X-UwpRE#E!)nrCoj+HdyfA!vXy2Q^Cf$oo
z#H28s4z}~;l&SjQ@jA_vSAX?%L+TzG<8-i{9sOPioy@#*=UQIu)R)+g)2u*8Y|Y1u
zkE7!wPbb)0JQ!r$(Qq5qC)Vj|aAV}+=Z)^o30u;3=SBgYO3yUaHSgtoYi^47?3?~W
zHwHQhRk=qjl=CNo{WGf{-}@`U3UszmkHnqcO6Zc^6q95ByhF3$7QQ~%ecx1h^A<~y
zZ5va-KL&2+%heQ|4tC$qN{-Kee--j&uV#%Pf%)eL63}TLC=<`|HgO5j5fV*hqMjlE
z9o{WZJwndJ)Ab(fpAOM@5lu_Q*9W_<gapyV(2jRK>wb<L64aJ0r2ri+UhzR0)}LPv
zj@4<Eyb~QD;dHS3wXZcGW+5%b-0zk4lZTfwM|p8N*mcDo=pj!XaNcx`V#GVFGkv`~
z1=i<y(9?U%XJ@oOb)WXE2zMr=0v+0?*|52d1*1MsiprA`Oj@mRI@msw?}gU>>pMBs
z(fias=KQ-gA~+pv9|x!Orzcn3vm99Kwp<CI_zon)`rKxSly)-vTO1Q*w@aJ-cy>0>
zvCn!k%X=o4S3{fa)=YCRzXMJO+edQU2CK^b3MYM2bHC~DUZX6H)4}#}YTXuFthR}q
zrMmh2?u|Y?qe-wnCvRQ4JL$gNpkn_c;t|@f{z9Nr7{lhUSb48%Il5cr<wZR%H=t7%
zYrsBdO}U@P6g}0j@<LS_=y)0?h8`;Q{CmNu^0eB8H?pINus$1E?GNQ_IGtN}*Y8Wx
zUXOc)I34W1f4p$xbHiO{3FeMS8y=(L*JPXycHd201w@{!u5G+~ZGVjNU?UF^=tvA5
zIUtkFP>0?_(r?20JSeW{>puR_c*CSU^B}iW4i)I^8)2POCn*zYvD;I9B#&+-10D8z
z(NBcGHDCOfm>Uw>R`8bybk_FT&zm|7{SD%j{8>QAN~9;i`mC5XulTm#^77X<Bf9L;
zmZRcyu*Z+hy^^lY8-qihB}Pf~Cq}mh;&iabkB<qV$7k%tC#R1t$LKxf<?293SVp0m
zgIR5pil^$2*w+ST3pZeWZn`FmIvIWJ61BZ-^H{LGwjAi3Zqqnt(>~JL_a*Zvi)pQD
zAkZnf+RCL=?6O&DP<}nv$?w|gI34VM4TZZ$KVF(%*WA=~fwLlrz<|@i?pL5n%9Z{0
z#uP)w$D!^stkpFXSZBkE>q05wC(bvWmw!oe`_UN&bQ06=oET0pPiCuOxpVmU5lcOw
zLmfU}@XLF9rqq+N<bRjg;~9X?>8p45e5|;{d_~fc)BJns{hD}KpH2s{($<JeDOaD5
zZ>_0m_#6gwUYMB^gH@8qEIT_n6NW3l>EU#+$In0Sve)mlB&1R;H<L~e*q>&_>0pna
z;FW0A5k^%PiM{f&iI%&k8{%MnWHw%*9j8u&*`?OKlw0~B76o*M-dx>VG_|P6t-~m)
zV8i8NjMKsPu{^QObN3sU{rmK9HwGuxTp-|duzfZ&F)LlD7Qd{y?(RcZUgz7iSXiGm
z+c&az<eI+q`!yea*Xx-g1?c$jWE~o~ccPLl(fGOL)C4~X=p6F;k#<wP{&dSw(E!c5
zhmnBO!Tw&7h1|8JxGQbHZ)6QQ{9?aP7>I%OG4#@HXK9P#y3+o8U)V`KwQQjC%{N#w
zBfIU%?Q~U<MgnQc0qCgT?0QeBa@mx%=;txx?;|Y&bYz8EvcKG63+&zh=6!*V?XQ7o
zSf969x`&3;lGd2b==8B$w7<;;I)s;6QC-b{Q`hN4jfXFp_&eZqu;<qssiNVZU(H<}
zq}Y6at;!NDjnl!NUwiV$4vmY==v9YE8AZL8>KVNb>+@cxb4T)U?6=xO@>+Hd&Dn)O
z=XueM@|q8`=@*ZvxNd(T-s1*z(${qFid2t0_F~7%iHn9W-%I0ku$?77`d>2Ek97)n
zHmZFWQ@f3R4c15g)(y$!MY}^hjv1L7GcT!8fsPnW)hGGw!op|M_oWB#hmgrYr#?aT
zO62Zn^O;AvqnZq-r-?WnY@b7eeYWa-yU3jai7UYYsqqU@us%(pM|u=5E`GYWeBe`a
zpHWFU&~dLnCj2z1_i)_NPz|wf(M*9r=i&B1v8lzQ?NQ?kTcRv)xT*skYxxGF7>?g_
zf(55syPm#%xo{QMC&EO+Be1<-LuW<`f1<6%a5>ZobT*81U=r9?#>z=uL#qe`I)z&E
zYc|JLa#~Y3HgtAO-BJfSP7$@%gByebi?81GcvkdXV&Mv`kIzDXo>jM6=m(S6swG@@
zGvz?1C(!XQZ+?XtZ{-J))op@)AWjE+UR;(ooEqM9j_rW8H_zpr6E=D{9qje_o_p*5
zby7PS&lN-#n}3#k!vJ)WN}G!O3<X-mwMry%?U{^fF2g!!NPfS%Z`YL8MX%6{l7X*X
z!+_2))z3K`%x#H#|2;3x4U}Kh!|7l<KU=fmiD86lFQMqszFQ{U{H!<~Z08dPI+jv9
z`xR_nEk22QlK7z^64uA|Pb1^9eM-B4^~=k7{pDj(K<7j4&kZ~k?RgDlaut;e<>SUU
z9c-WBwa+51G3|=ns;D`-XBX!(0jGoQV`I3~sIhJDwX2_a1pd_JxX~`b`ZPJJhH6#D
zRQ{S6Z#?pWGmipv?!9Brt(X^{XgyK;Y}m8Ylmv8WI(z0CCOyB095%WY8JDg~06Jmv
zZ%QIo)<=e#PmOSfk#%Vius*${_m}6M9zDK$;U?3WKfUWHI34W1yI18Hh;47mI=^--
zi8NQlV2#tk?z{A?|6$vUs`q9@9qncnawT|y&V8eOSz6<Zg8M$3BnzYl&UA;v`Utg6
z2dHeg#x@eXU`DwmZJ7#mrZzmLZE0-rQxrDZwM`(xz#6B6?W|T>uP>{wK^ms0WD7W4
zIU|D8!FEo+KCM~z^^BiQtzE}83;yc^VX!_LLevY?@UrxzNha_4)?1p{KqvXAq4%YK
z4VTG$TPK!Rc%~e1I@mt{R&ErDmEX|jF3;-SDOwyYjnl#Q$-1;}(}9;3BiyzNed!`(
z`_WKXp8?wwFN%HX>cxD_#f4uT5({xU*me2O3K7`#zA|bZooFw=yZ0~|r-NOWscp1l
z=EsHro`FtjDW#~xM4<D7?f9M2^Bec>k~=M%xpmxtei7DZPTA^KMq}iTOs;{7=;8ZE
zsX&MQgsF36d5Og<&WOhmm1)XkptDn_i~h~+iMrGK`;I)}dFzNkhr-f)qW7Lq=FCPF
zA^+2|HS`Pk`e656cyN%l&FSG&!m{9v@Si2Y<v1PezRv^)@-x{hh<ts>S(irn{525h
za1ggVt(H&{u8<p}2N}2)s{<W=cdorJE-W0nIg-uxh)>vT;XJ-R*mXUA7w+iYDkMl-
z+_r<-p*>d)bRKvnWK5Gf{VV1>Q%hAlTLW=A*!{|8ZICpkyyBir90{Hllxo()>0sCO
zzhCM1z4zrpt6ut9?eOitUo!w5<&E-(>RfyFPQ94lUG-<Mv?c`BInO|O@9UnX&5JE9
z3Qzh=n8SdM-8rgO;qsD-+Yf!-ld5W-dO+v0Kv&J<g5e!k{epif&KIUK;B>J2#oH{I
zBmY|P#3=K;>SqR8RzonXPrQ}>Xnme=1X1dOjD${1Occ<G-FY(H^Y4{c?<7^iEA3iO
z83Ud7#x&<8L3!DC|DMKh{qPHA1v*@uS6s~IH@yi@SfV}}%L{J^g7xXR{(hHS%g*CJ
z_B?EylV$x8h10?A*Aws2wWNL8pY++=c-=Pgoh0FOu;&;1$5AmMR@b4eXPKBQ=2XfE
zK<B*sdbXpwJ88<v+Qvz}Y<p>eus)6blDeZFyW<sjvXyV$j+>?c9Y?M4uoyOC($Lz)
z$hY5qKOg~}?Li-&yh<<oFnNV^dF<dLCIZm0>#VF%-}rss$O}84b!T1I(gI+8&aUZa
zCi<7&PAkbRSUz*zl>&5LR;g-~?l||l`aY}O`gQr<B%mW$U%F3q|DJSlo2|nkX(m(x
zP6vBD`>c^YG8}$QinZy*x6kz_`nvsLeOR-O%-l%up7to+b7Dcvg)tTA#J#96&-CI5
zyjbM>aPN)!CTpN0)#7KQInUY}v1KOyocSFVUZ5kYH6OCFU9A1;=E>`ewWs!XpM&*z
zZ5`p9AM}``uq|e;&%9YU6{myUuY8tsjHVspEXf=Hrtippzuf_+gT4Mt#l>nx-3+L|
zklEhVyQBNF2+(OMdun}lghNY@Z^n(1I)7!r57wt$>e1D^sYkXy-qLk{U)%hRY@oxR
zeV}8?cS6Rx^u%|<2*uX{=x9ckj%mDnnw9V^>zmb+i*X`A$1E!JT}&a{;o_w-ABmV(
zUIV`P`e66nfLCWv)N29Fd%Kv{rIP>LFU09!_r3brfdA$An)+DR;a%#*p%rd89qc^T
ze3z#Go;mmY;kK2IJG&koA>wqf^DMo6_%(MTRKbE{M094JZc9IluMgHKuM%``;I}=Y
zd@z&e+72CcD$u#2ZuUC4PfP9>2TkTkRqj4A&>8yu=-lq#UknS~y8RqD`A!jWI@r!f
zD>&;$n06c;+yCI`HE(j`f)A|EuylugaeisCa7apH&DUF>%7IQzqqy9w_$Xh8*Z<zk
zJ(MH_0v#PmwYP>>CWDR(wOqBjSQV}gbZkx^h~P3<UsERIy>Xvg#{XmQuEM(7!UvDj
zAV>&EDH761NC+q;N-2$`bT>$+AX0*apfmy!(kVzth?I0lcO#9YATVbx_|G$YZuYaT
z=3<{aZ$8g@ziaKif5CzIV+XK4Wx{&d0uA@t*OddSm!?u`ssJ6V{_>h|y`FdNDhKf{
zb^;UbfKGy~b&@2d(tF07-rFPohrEI?9q9RCo^U(l@ml)jf|34GM)@cc1*QYNzT)#L
z{NBI38nKOYA}L~b+q2Ogtn+;0t)1ly$wI$~uX7Lb3eNoiog-}ioq~?ILb7vPfvB2}
zSaCpS{Z6|VX$(&!^=iHo*NsIt6hMc-bykVQ4>jN+Ui<FBO$psbJ9vGd`!%QJf7O<)
z;BX+CJDJa^voHjv1Klre2HAa^ry0RB=N}AnKfL9V0d#QR|Nf&M_HF&!71lNJPa6z4
zfKKu&e}6CetP4+K2NbmOjpyyQ@cKaK((|v79<Z(%o5iw;u&f@83;}fFsC|l*#tqdA
z&8#Tnxq6<;06OgEjVMj{SS-PD^OR|E#vwQ`9q7KJHh2%9C9UwD5UjFLlo9{#vjOXK
z$|sfS#l8N4Lt5U=MMNM!3eZ9M?y+WA-7m<lX`QS7=R2<wpySR@`%{s;);7a$s@5o0
zmx2h;>1fhO4O?NM@%OrC#vb@Wt<M^)56R<Uj#~|pqvjO9Yg+|+gQEZ)+ON_dRr)8J
zQr|fbvY_HyDgip@p+D6QUlrZM7rynmSY3vj2+$G4pm{Qs!0jFJ`RROnYfwv{6}&#s
zb7=F|jF&XsaLYUIBL0z)^0j!F4)i(=C`q3hmZUo0P~}JM;O_aW3Fw?><EQHTG<?%!
zVZ2#q=vzVo(}B)qi^{jYkrLE6<oW%i{7yu|tR=iY(7AqW)IZ2HtX=JL%TytLSHzwM
z=<t6J$XMW_PJ2V}jG~M>t<3<?X<m54>T)nofgOB)f9dMS3|c^kH1r$Q>?1X=+`(G4
zm(t|4vld`|9J}-NhE(JV#<J+h9~+E|qyaidYLOW@FJ)KopQt>KEsO6mfayT@{bhqW
z&bR3L5+6(EkG{Ti?kq4J=)TXR^qqVz#_a2vOQc-emwK{l4%R2{&H83(K*8LUKwEj$
z52ukFKu3y^vh==X?>F<e`iVK&AAKwUofg;nQa6_5I2qYH*;eeQ=PZDZW}662v0uB%
zr(x7*?v|4{t7c$*ENtG-pecMDDh*Y7#C)UDJqM-(-S_t?Of|LvETV}+ci!wOd){||
z=|K10sYhL!1I1CIJ^h*-i*P&vH=uJn_Q9hFd3k!H{Yi>=smhfdQ?NcCb-68qY~IT&
z>m<$L?XAX?06OVA(YNsJ!s)QlQZhd=l!!P0I$P${n=bRHi{hOwdd5>_L)?Il#ZWbq
zEx{%~S9mqf*N%@CJ0@U#a3AYW6c99jHD|uJ{?b`cy9Cg&`&1v@hfN^NGW^D>{=vMK
z1E3R>Z?U(%@32x|z84~KQ`(vvrUO0CbpqM9jY1D3yl`KA%wYXddu$BW=e{WErxpKu
zXovQVG!%mR9aVr1+nwX8<3Qb^l>@@paW7fp-2t5$_lop;PO(&I`N^efp>F(wfR5*n
zY3VAwe$C-*RRz7kLy2P}czvLqJ0ID5p8Bv<mWOxWz0X~Gs}ZIHy>IyC+nJ)fGEwod
zU-<mCcQf|`bl&x=gyS+e6h?VGlwaIGye|&ZfzFkbctJM!C0HUj`Y>-NuJs=dOb0sG
z$%>wVx<$-f*x|!<nuDy8c0+ibp^hnDz?Gr~ZGVb-8tirnZiWz;4s@>i#lx-#c#r(o
zGT6BjmX9ZuU^>wC<cD}x<OgR5=aDvjJ{_>kBLZ}+GW(QA@miwi%)K#h@vD0D8G!ZS
zvzG638B=<6A|7O%yMf0M1?cGW8mvy*wsI_GFh_D7`JO5PIwvEcd!Yf<DtMxw{=_`f
zyF&!%VCa57Ez^$Bnpf3-x@nhs)~64z4|L!EU=oz1<{M@_SQBCv?bGXvhv`7~J>%S1
z*M5(T@xyu0zq$-=J5506^hLHxcJl*o1p%`IT8s`U3P6W@<HLj<!Ik~_>kCwk!x(#`
zdhq%{=i(Z^I^1T(FLW!TAVI2tZ#o{(36v>W{iVfC_$%(lvnBMq4>bXu=2y7AW^b+6
zD_p~@D)bV4C;**vjAucVFJ3+&5Pt3&Bi}YWsteZV8uLxGn7yUtP2%^3pOl#>;sKpn
z`yg@W)7*l4PUAn*B^LZN0Uh3y+u5QSJ)>qcJe>bbot-IQI?(GPl1=B@KebOwHEc07
z?$x`4vpQgXVj`Btj&@}tsiezMqFzqhrvW;nyW!-=7TQ^NUufHpbQ)S1z;vK<ojKtd
zeVrDK47@=bL#f--&H~ecUKfhZ`Qw<ykvO)6PA}=1qit57gY_Zi5*bE4H_kKOZgN;#
z7+=T%bh1CDyC^0a-N!AWw%Rzkd)or01MRaL(%f9Bemh1mW2katO{#($rUUIWli=(h
z@lH2T`rqwNce~JQJKFI2K-Xh>{#k%H2K}{Zh;r!iG@5u7Ob5Ci!q{(alx*_agtNM7
z_ZUCnxdS=|ah`;~dklR0SG)9cH4S+M0UcU`Pu!__)m<FLmf!iY^zn|h!1`SKHd%t&
z|N3t3mh+v08_%;FVLH%0<Vt_UdgUBfp3mvz-;IvM_XBi}dCN@<*@);rjQKQ_&-wX^
z!*rng&d+kwwReV`*57N}U*gOn7YC*Tor`Z<Jk*!0e<;{GU!V5Jic-5Kyv|UkykPBt
zwn6c57Gdk}^74nLAut{2TncH#R8n=BjbXP_)T8W=9F$->(DmH!?U<zOzfPUJCc<s?
zD{F=b(D^LIcHeZ+>!RD~2NAls21=g>ygtym{_Jdg*=F?>KTw|vy3um_Djuc-oy%2~
z>Ppa5%mr<3VjZd$QK%-MqfL=Njj`}dSWkmr<tuH$5d};KI+rBFOTv`M@<0ABJE->b
z$(Lr;;q`&e#kz5%arj+5{>w$DO26^#?`eR}?`(fT!Jl0}$a&^{v~KTO8NhU)bIBzr
zmG!<`{7IhuEn{|Ve31pF1D#7IRZ91|!rRxjN1ue5QAKuF)xi3gPQLIPYE`rNqU?>~
zjP7Td1Ji-dh4N~zjX%>tmrJWPdB5QmjRQ;vI+w27XBXQ1YMDQuqt-F#H5a%6otqyi
za?HhY*p#NXLez5ygm#|6>jRyOhUfDmo3N_ku-3jk!qU12RWKdsT;aLz>MMd!eA@+h
zP(I;Ghr0thACm~_OseH@Jd1w6-V7=)5Cn8?_uXs|nXNuv?In0UfPH=BSQV_#oorpl
zNtyCKa<gwI$#HYzjW8W(pXbjl8kQ(CDBag3uXh$78v6k{1k1~)#?p<&l|$QPQzrd;
z;xHZPzDJ&Us%w$RHcvhfZC45n=)!^NK<Bz%rrZ9vO45Aqf{OX{^X<TP6?mPY&O;6N
z7pQBV^aazjV`qdjQz0-N=v?t%O}T9X*!bP>nU|7349Y6ObfD{DFG)F-d+s7<N_O3H
zBNfGq2+#?kl%GP!-afz%HOWe>xT4Xg4AzGPHU7W9N<}kC%2z-gL)s)11?X%E&m^*u
z-A>x(VI?b+YY<WbbOzMg4yGz5$=aHDb(WN~!iZox(EV~5M=R2E+a|@vDpu9glg%Dg
z0_$U;sTh~+9RJHV>#oZCmw03GfX+d@vEbiKCevmK?(UWN_$^I9r_tm#14CV^6`J(d
zza{b&TNE%IXrGQoP3@IJ=L=S`w1PXrLQS)ZV0|JVUHm<ue)%5n{<Fyq7v`QcKnMRG
z&R;2hJFd<+-?C<s7<L0dr<fPVdd2Eb5x#1mj(s^7IW3^0F<}xkZZwbPTuX6{U+ntN
zSp|4~pq*QFVt$dmd#_{5;IzbM<-V5#(}CVMnhG5w8w_oiTNFfdHm)`fTL3!OKGUEL
zpYL64Vh9~uWoSFIz;vK<<*!i$*82KCc3tK>V;3zu+mVOY2Rav>`6L@In)=eOXX@i`
z&l@XB0G)lO2l2Aq*X^kZ`)(R`P?<Zxbf9y|OJJ8@52+)#I$LVpu#sjc2-AVi^$pEO
zCn>Sg+YD{R;8xi!g=0CeK8ok8iu+zmmb5%#_63?>o2y_t(79al8GcVHj7c37Qr%R4
z@oB~nrURXe*Q=4oF|RklpP4#DN4YOU9MCatRPlQ5yHMHhw5TBV{Us*~Ob0sG?=Y6;
z(H;C)P5DnMy21I;?N7lvukSfw^;diN4g@B*<<f|XgaA5wkFh`F8BwtI?gi*=7MWa;
zf$2c!x~Dpay>EjVN@~V(#p`!GFA+=!x?gOm*o+~HeCF#XCXHL?CpLXg!1_EZ%68Si
z!J53rxcgP?@tdwFm=1KVGT{hnw~_z-KcEt5XPhl=Yr=G(b0ydt?0b(NC+OZz4XcXY
zm7xH1$XiHb4<<)N%_L@fO-QX-M`gkKXj|bI4;nV(uCN})1Q&Tk#=~@=eQfye4Dem~
zwp@$hb~g_HY|;Rx1MSm8W@=gf<=v84mGFgFuj3<HKqrbQWJuW|hs`5ILV#TeWqno#
zULWXOQoMiaN%g||v$29*GO9ni=D>8Ib8)`=`b<J|t+>VimGBoF*9{9mXOukvTRk`I
zmDZx%E9xn$?<_DK=v;UqFYaYN%GT%|d0r#0q%pH24X+P$uB=YYRg^la-WwkVUSAP8
zq$>e**2>?}y%l;C!>rq&Jl*6Z?Euq(&J{jBiN)0*V!z_sJ+&!>*(M0nfzB2GL=RU1
zOXu!@S!QI{Y0-ycDX>2JznJ|({P(M|uX@JQcjP8i!E~T=_2&rO^Ez(u;eA%nE1Tns
z?FZ9=&ZR0YlBVS1=YcLl&_`$X@`E^_!-eDXGX&jI&^a~inx4fZCJLZaOmEyG6M6Mm
z>8nm!abf!VMoD;`p?!jDtnEZaQFiF(th_AovLZuZI?z4}Ww(Z+JdIH`=#*9eRPyZ0
zz;vMNA&V#KTgOn6In|NRC8o{@AcE;Y*CS3ajrn8R?eT!PgMebKS8U&7czvLbKP73+
z#F^&WbLS75q8yy>qF_4Exx$Cg96N=!+B1e}w$|mRtTbUd(Dk%;PNgzlt;w|c6guWK
zM~6)T(}Au>FKeUzW~Y1fJzDfdVFjD=*+*b~(qoO>(xw@0)~Cc+Y!0e7(f}Q;NalNO
zYA?&kU&dDGNG{(sfayTz3LhqCAD?|?sqv3l$Zdp-lm(^(?To|b^mOF@a@E`PmeQ0K
zWye(sus)fyxV-x}18#X|%*BQ5&wR@PbOPU2T1E={KKQ4z)b68+CT0QCf%a+bkHBHR
zI`i>gY~0Os%XjYFFdb;0cS$cokEGNTU4kMB+H6$hb{>NDNt}IsN<GIj8p)rK$ouCo
zrv%V>=3z-NpNzrKka91oRW$p(155|n=Y29E@xG#|T@j<lVeb4@4?&m?v`^iOq^i-4
zzt%y%#1b+Ri(JRzV11Gk<FpMZRUUl)a?tjk^8Q8@Ob0sG8<B{emv?H5wHng@s(WIL
z`oVOdb2a__oufgb*?B`B<HBu<ms%Xq$*6zbH4%)mh)YGAnH5kQf&%DND(@crUT<i|
z=Z&Qh;gtH*C<fM9p0Z#h(B$nG-SB_2#wZcqet=F}@GC|E&6SupQrcIenrYO;0iD$T
zb7=~iQ=hPFcPC8!z7wLrbfEi=n-<Z<(2Snh_9e&T&SFz=yC_&6tsN-=cYRt>lR=`m
zKK)7F5I|?jrooAw|1YmH^Pi1d`2GL=r9F7-fzIW_a|i!DP4q5)Z_-sKZ*@f?m=5$j
zQ}K>GM8mkJqs`T)6&=BM(I*0LJy0ilC-n1ZBj3{oZa)uyV$Pf>m=1KVN&;z-0sRFN
zy3V^QlX4zEHDNl?_1JXjH1FvhiP>8AxU<E!&rkq5+Ja+6J@gk5vRB-%DehTNj0%JG
zamUf@Iw;7IJj5sL`{EGxJRYV4?Gy01J48WdEAGTs7R9vHht>e51MPEdA|hk<n&Icr
z=e_oX$)pCffDX5~n&_m(x4fU6hx}YOe<sd8fY%2)SADv<@f-%7(zB+uDBmL9)Et-&
zbS|-%?}>XkoeKHtIjMswc?>N89n`PB*Nn$qT*}kd&fgN*ZnMC2pmXWWzbOcDy;Voc
z*2K<v$bG(ZA6_5mTrsXAuKvZowLgqK6L=~#FiQZPyBC9;E4m3=6-Rg2eNq@|9RMAX
zvH&LCDh3wZ8P6E?nd*LSK!<+}^V6Qc=DthdJ+3|lqOctyus)`tmXdTo+SVk+PZc>B
zr%p-$9gP=TTN0KpR~C2d2-zDSggF2@BVPn}XnMBh()xe(8LcPvaRWNS+GoY5e)Acp
zHL=D0VUrm<f?$2n+^#qLWm#+NC||@d&MdoC0_ZfPX4o24*nMqw&GR)3H6U^TbQ;U7
z8l=;TS9^7%H6zmqjky7xuBJc96;1;i`GGgpoj%iS><EDM5ycXu`6?WEBcYPxIg0b$
z_!2<J;^hZP|7?zPE}JKJ$F`_<9RM9><x@$@@2=fur}stv`~8kt+<;D~z+J8vAsZ`V
z_BI*)`Zs5G?t%3|9jOblCMvKSzb~76MTah{1kg#??3{1=sHu*tGUzn0Zdc|2=qyWB
zMAe*W9JHM#jYYaoe&7alve%7`@fRf{R9f_OIYh8!cKE^iw5n6;=kTqQGT>o$gcz!>
zl>j=ZPx}I=ajahqnaxzaypj090nia3@C{T|7+!9ck>o<#uifMZbe<OJUw_+P^CAfK
zP}{|KhGK^gtk3(%LfYX;M!RgcpgWzV1=A&fPPWScXRP@EfuV2z+qR?Zc?UqpVzh)S
zT2bQkU!K+{MWN{lZa~N7%gMt7)O2$0v#m3>8@_EjykLD;%bJ#^*i54$A5n_g51>nz
z06IL3KNeiojsy=gMt*-v^Bi&jbmW3u&g$L%5MljfelV+<+0G5<{Q7|>Vfm=>X(BZ(
z54XZa`wkCSA5+w#U0<V}tnPm+!6^sQ<t2a))>C%u8)9T$uU5{ja{mR6I{-QY{VRs(
z{)BsOw^Da8+keV&13H$^WyaoT^@h+t(+>Mv^m~2hE?A$p-Fs>pB6*sznAwDs-|#(3
z0G*N=8^Ulk-NeR{9g_L>TyF<Jhgy|GSYOIQ7|YgLKI$)x6*r)>Ab6EE>=`~)KaP+3
z!>{^0JKSJ>R;~|UI9Q(7upgt={5nC|D*<$z?xt)1_v;|eo{-~S$)T^SbO3bDKe5Ms
zbfps;m|(V~Z(VfZ26V`Fe{{X(aii|!s8Z~+diZ*W3#?B%O`G84cyF2L?c|{3ctV{L
zKu1EN$l;%xV6e@5$%*e5&IJyD4&8W|m(N-E=(;}dwQw~F4{ksQkM=n;pFZ`rvpm^!
zRt#<A4kuV2DN@?lu1<l_l$zv5X_jA~O8_0Z<d^Q(8#XYAwlvVTRGg+A0G$+!e;<YU
zy-Ds;zEZZ_4`<~Dbkt1V){masIAJSx=#JskVC`^#^+_r=<j7jjJ#BndXRpjNoK^zp
zn3?j?2;3FIVh%vJ6UB<QbO3bDy;<ejJd@sRR-HR4#?)$Z13DwwTr%de9a!E~s276O
zI2=27!1@sFh$;k!5K?U~Hh*Q6I5H{$bUu#eAKsp+=diWC|C4nt?uP@QBikZ%M~>K%
zX!75nSC#nF9d1B}_L%M_(-1*nTIJPRM<y|s9d@ujILlo7Kg>V&zKE!83NAVhEdg}W
z-_Yh091av#GTs>*&Ut*z0nlM~cwaJi+vJbQzoVb^e|s3Y0iAJI?yZuDWqOGyhqmHP
z?B*Rdus*#JV-}Sn#Tb1iKU=;roidgHI`&b_c)GQrJmmHx?Z0=0-a7y~z5kYL#hBXm
zKPPJ5rEq5?<_2_#hy=`<Qclgi6++oqo(MYbu!8k*xmK`qV__rs=QF9l1rFPiC4i18
zehtQQR*<z5p8tp67Vlde0G&<FPn6hqEb!CUNEVMo>}$9Ioo|uh-OoQJ+nubYd8cqX
zcI>c#^^v@b%6zlOjNV(}mfVYUDw`5Ohx{Vxdi$!i_C;<qdxwE6g9D&*)4x!Vz9pV#
zCy|zVibcAd8_+pjIFhRULs6LDo`vx(^0aD)8LZEV<KIUWttVT<;uUu(HbSnK06O94
z97}#S{=e4356M^e5^p#FIx2ySYM~Ri0!Vb0<J{xKq`3hd#yxBaOMw$-bJ~{;s?Cp$
zc9_8Whz!fW=2G0*QhWACmbhELs|3*5#11D;KQA<`w{|D+L~lNF0CeuJhAQ9fr^Oc8
z`}Y|&kurcA(8(XGe;^%acgUt~%sxYw%)G-0*2j{6Y^Ts~_%5$2@gJP!LaGu#hlM+0
zh?>A1!=b{1yP!pw#{tkGqP&Lv4bA+Q@?fh&%g{~}H=uLTc;11oe6zafIs4AsPYcu?
z2CzQjbW|A!*}b1ED`(;jlJ1L@06MKFv=|>qbNj87>h>;fv{E_%Iu1#a!V{8=a^8~C
zMXlpA$=ra>OEJq&nfL{-_C9@?pn8PkzjGU`kDL}?acNLdFW1sq+IF%`NC}|x*pK+j
zCL=xDw*BXDZEKlp4uB3BI^(Ah%hKt-<(p&bd}W;6fDRTv%^&Nhy;NTb!#vkWqK|gy
z!TKD3sdBVetf*z0T7LYE6nm=#(7D3MxP3Sg@LRC`oR7tl-NFIT!F#D^ENtH%>h8Oe
zO|Biq&JE}!1zFLJDW0df{EPHVdGBbsLkF)94$A-ipLGOo_}p<Uo_geUm9wL>=c_Os
z==Y4CnzvL)&V74R_a8>YbkG~*06JY?7OFdLi|~rmJ7+Mb7oAwZbnyT0u}~7`hHXlX
z-e31Uf33cHM*BAerURYJ!oYJG=T5vQ^I2KaJM3_689)bj?W!st%2;Ms0&QKwH>Y(R
zK&PB`^dXU)MB{K&Vu>(kfOI=8ynTnx#S-_A&|{NRwKUBUkH#*wDg>qj{hqpg!E7Dn
zM!F4iOV;hmlT39bm<|?Xzc_bW|5SJq(KpK~#=k;Adn*Xjfv#t=`ucBj{ocQq*B1&*
z2ik|Ed<PW`<4*D48=w1bu=2$>(tvg5r6($ne<&h(d7b(JI(?JAxklP*Ew_w<XIn%&
zN5lag@2-v*PUj2D6`X_o8ETtB6hNmTmusuVbLd9%9g+LxJ??3Zx4`;DCgPdcUu_Nd
z5eoj6aw9+052gdXj|r9iQWN3dLI14uTI$Wy`S<RC4o%#$q^mQ#^u0%eC`XdzlnyW*
z==o_!rRnBOrBGVB!oZ?M6W+uP=)8M!tb;z57{VLy_1Z0i5cwTyu+Ek17(*-l>mNwA
z2{fMf8)KIMIs$w$vS!(6?hilHI*8BH<T(I3!P4j*IA~5;;{F==i9&VvxM4b1AomTE
z(eVRZ$9X!Ys|hoP>^jkK9q4{h1oZh`Nc2oCcSiWU%5?1Bxe2c`^!}4?)yt;6mpa;6
zEE?dceVe5UrUPA%Pl9r6g@CgIl^coi4pW_tJD@`yVr9)-m{~ehyXeEf`HxT#&{<0v
z7Tld~nyc4!*q&DPtUta1*2nZPr#bEMfS9oyivRagEXhWg4z!Q^M><uO&TX&SD23Fm
z83GkQm=1KmScYF+=`6R%^LsEr`nd5xOa`U{UC#+yq%{3S-V43rUF?nXDta71XKskY
z;5&=ICG&%Hdh(yoGTN!&b%w4d%w{Wjmo-YODf={t$^4i(1kky7YSyu=$fWLwOI=d%
z7Waz`Ob6QeiTKymCB-1`H-C#2#S0B{h+sO<xd!xJB#Cg%+PzZ1z@B@>c-Th?)<@#t
ziO*Vv6y{z7s`t*Yu0a%_V<5k!Gt>2b(PN3-B`EFJFC{={P}1iMd+1ZCDdTR(nd#qp
zM1am$y_3h~R7A!lHl(F=9Hd-*6kvT^HYXPNsk!DT`>;!-JEMG}0G(8^F_sM~TfKF?
zl@jj}`5Gla$5UW@csHL=Kx)lAB4#M?FA<=V@HWSv1hwbF=#4;kM0H_jA30bbW8*0z
z#b16on{Phg-+%arD+<t=<5X%o`>;c%>9Z5g>zhuh1nA&aGt?|q_TOqR*{txcqCO!4
zbbkJ|T@Q?J3Ab7rzx!c5fT52Jtk2qKMLO-x`I3TLOph=*+WtlXI-|9JbPAGdCFa;v
zaq{!2S(N~tIbwO*wz|?}_4~yc=(;LHM1W4_nfG16>^|@4LgBG@O*cdPu7mY)IxmXL
z#GLcnU0qnqy%k{>1?VhLyv&`is@ggZdPrq-`qEGd&?$U!*L;76ke*7#caOM(gp&x+
zq3<HxV6O^{n)|Nl&N`m^wvQC7kDk%>JoeuzX`|YwdQ-0Sf>AIX=;r`LLV+KeEhYLd
zof1ID{pl0kBKnfsJpOs(Z8NQAaOZ+P2dTbb1-SC!e!X<!VXg=2w05-LJ8Te|y>tu!
z9rxfzdUu(VR@1qE#Fu9K8?(T4Fd?tQ-8csLCB2>qUphE|&a<$!6UHmP_Lt5o3B2<I
zUC)H08M?)AtnH=K4(KG2(mf>*63xAIasZuXYRid-_2I3TP6(j$HbG~X>p{q$OUDAx
z39z{}{CD8r?Mp`n(8(ko85R(tYPfV*03F9F^W)&{k+@3-2hc$i&Jhk`oy@y*R*AvR
zPne<bX@XvK`lZtj=!ogbeL?llE4p-Y03F*&LWUpuGeeh72%z)zsNii)f40n}V*%)N
z2j{=J!Juk<>Bs;&`6sS?zj#p&FC7*@XNdE!Pt~fE^reFX===-|IieG4R=adouYsK(
z-SIV{JI&9qE}eEj=k+`3p&^pj$(K$Jpff3Iog(^^-1X840d(f}=EUNUlo&1@3qa@2
zolePbMGF|0jtrpl+_f?#^S?jxc<HbJIv#Ot8yjURHJ1(!pmUw(z4_`wC+nrNN(6R(
zRCshnuXnLOzjWFG9o!%CR#jTDDVI(Tpi?iv{zaCdMfK7N0d(x|XUf}53}jzA7JyFw
z^AO&OcMm!*9T`Ap#%MVGfZ9d=(qRE~ltQx(HOLlGFC82}CpY6mf#rjZ!AobA5bXT0
zk`KgVmM=G6I_-dtS*X>pnC9<{OD6}=NiCGrD8r`2yL3VTows-;v)c5Z11=p4K*#Xx
z>QKJ0)rU(*2GC(C&<$~2x#4x`umC#le?KtS-u#<%>EHl5j+nlKcr$Y+m(D5y*!e+s
zcUOM*QvcDV(+=p221jY|I(+z_*L697PD92SCE<eJ|2%g>03G&n9zPMg81KuuEC3zz
zTf^ri9c%w{o@D?X&Eqc2zxdZJFW18Y=;+glkK??^`#;YwK&PT>ADzPW*7@anR`J2k
zkMDL7_KG00f1dqdp2#_ddpn?05E|r5caN)T<8yJ%<R%+d4onC7xv{+Y!<d#XBga>i
znS_BxyNnhv9dyY1+|eD)EM)@8jr=R#4Wi^CD}pc`=z2asaFNv0rz$uJ5dXvy@oDP#
zD!k6n&jG}O&b&G9<7-@YZiMMT*Hg|@Sed=sMR1-Ps;gq&zU&9nxeMv@BV2DeF!S@Z
zna_+be!FTZHp1)!egDp8Eog-OX`?<%9e=KCXudlQrURXejby)BK8QW$xIZ=T2XA4f
z0ZfMwGM6b%O!q;|-ZEvya_`v>Qt2p|4jshFY2s<g9UoxY7m%aA-)gR@1oJwDp2HN@
z8wt@>nDy#^<gP4^-L0pE=|Ddp^Yg5frXv|#ws9(*SuhBb5{Ky!K<1K?Rgy#Pc0Rwn
zPT}5HZ$KOzF2h4?-iH(CeyoPlj8-$pFxLb9c@j$Fczx3Sg{M9XJ|w}E;df_YIv9}k
zgsw2f=8p0hwl)2DUBw|lPzBQ=fjFvn&tfUFH@KN7vAsx>cfP`XzC*8fQmaWXbrNRV
z9=i>B9KYJcKA7tvhOCFkRRrDF_!<*#i66%I4^~qYFkf##udmQ2Jv9Z!Bv>|^cKqzT
zo4%tk*8@GzxGH{rW=f%tcolfM7V@yGb6`5q_2~QKtG}ixT;vf7rm*}wLJ9XALihcR
zuwxfvVXrPnXL#8oagvX4uM6m0tUvDQQQ{mIJ3YJLtp3z}jR<hAXM)F}*u{Ps^^Zax
zH@6g<_QAaWK-a@Hu&(e#?Cqc8(VF>O;*e0#`)c6dxDCCI{-tXBq$~U}qSSEjtI+lQ
zx}v~+^EiWDOUp$wY)Y=48*r{0&8Jlu$sc{Y*ncprda~4@z;vMdel`B%Ev75+0`DhK
z%B5L+yhmX^2chSXtNV`{W~DOsr4tY6M4@}yH`_GiUOJk94*u)>!`Z(h`j-v`pu^I(
zoMo*$y?5!1;=y~}0`0T-@2afdL-LI66}G9bGg=|>fR1vNwb>Ps2P2n`CZN+Yy$})J
ze~e}5JYH#}hZ0Ev=tz`ScT>Bzm;80x8=k0pJ2i?6)~7L=V<wL%7x(XCwFC*5Hf}sj
z2l~8tA*Us4AD0zx5^s)K`o3+?0Hy=IPLrHi6TL`$LoXd}K*w%+U_KRhnD&o7nfW*7
zst6RA4)pxA({)K?)i4!`PnH^bIZJXkUV+yc+9w^eFhtKclVnZ(KxX;I;!y}p2fCj3
zo|eNgN(D@pjtroq&Z&?3D<&5E(!l|AMArwS^*S9LTu82UKgD|3*^UFR4|Fb_jX}&A
zs*}H$>j?pLTq2?vCZ#H0Tsks<&fYFAYwf+)hL;WwpwsoLu6yqu`4ye8R)$w${R-{a
zV0|+G&|IVJ|7K?GH)dIOib@^==;%xJEd8T-5y`uK@*-xv$XW)_>BhkEa(d1^Kt~?y
z!51`xfdlBM)tfG{d@jedqE-)l(;t@Jjs@1IF}TrF9w(zEKe2U%t67~X1f~PMPK8!U
zjO)t{iAs+jVLdF1daDG}fu3htl?^i?y1txx3)7D{y(|($fX;7DwfU!P)9)_NPah^&
z9|_OXh|K!XTiN2{bl*&=l%oJ0b^E)AI$6}p7a7K1%jZPVlmHz}O@~<5X>`WR^GpQO
zf$kTBM6*=;BPTrl_{KoGt+i{T81VW)oh{S7w{tYTW}f>BjIvy5?P)L_=)Tv#tqCb%
zQK%<e_;kA;-CNWE(Ahj_w4{sTav(PuIKO9L-bM@PP-!HRIn}P=(t0(=J(nqSokfS&
z2Rc_ld1c%~vN2}UU8X_-9gC4Pm=5&wme(U0nh&H0rcy+L*#kUp2>8KtpzFEGHE};q
z_(<co88zdw^aloUK<6rr`D&Kcg*!v!JF39ytgk45PFwmFeY>&i&bL3cF{v7tHa4Px
zb^gF}Rg5FxP~ibO>YbZDi5Gr=&VGrVy09gST<UT;$tG^|nmC{%eA`c5Uvt-qO^E3p
zgRHwc3ZR1(PE_$qh|8fmkVW$$yZ*~YRIoms=u>L+PuNR3EK#<+xG*C9038a7AkisF
zhE_$nr{S(*IS<7F9r3e^tGxk@xQ5*%zf8KX-a-L%*2^s3J_|{S*~VqbZ5$_m)QAGs
zM}FsvpO*%i;icmT==ksDN!;HiSjiV`;qu(Vz!C>^Y}*E!^pf9a{K}+>-sXOig96im
z-k(b&xz2(eN7*^`shn9P(#zW~PA~rVe~^!x{-1wB9g*>Lra>C+bEX&n{iS1Zw~Q!2
zCvb`v_i$V&t<t20#qoFnPZQ8lyX`qyl7-eBUU01lU19SbEldY`KkPPSm+-++VK!zo
z`P9DnJZ$zHULUBFJHr)GEB1?ICYAXLD_hW~G?)&wv)7b{;&;Q-h*QaoB{aENQVT$*
zy*6;3-W6Nz#Eg6K9tLqBH%tfmzA~}~RmMbDM({(0WA}~awQ3ZY4s<SJL$O{TWu4OM
z)SnYRI3}s>XYe{how)hiz4!x+mMaq6=}(2%Q=<T#NBWM}6K?(H-O(0G3?H2MsR`48
zK9{|WW+RDaUSI_@VQrpl`A!SMbf9xN-yr>OHGlhY4(_;QYaTD406I0l-?tuN>};2)
zYbh@tWrno>gV!0l??2^P({}wcxXhoWsj~X#G{wVopnYzvFcQ}}rkJe7h`2r4?BH;R
z=|KCqJC+m0A7;L))hsIyAqoB}4(L$u-Myc5dYuB#_oZERRvrfqptBK9GIYgFl0CJ4
zJvK9ALZt5$UT5fBNeL5vk%`Jdy4Tl7R`(_S;$b?_{VG0*+_^tG`=z*usy{e#8qWgI
zL0xc&rk*#Q9X?i?aK|%`6@=+P=W4a`vh5oEn(*rUJTr{wL>UFp;TQ5IRKs*xpw;u*
zbPgRBX+Ht$%;v``|3{|n@0WK1R39@Vg`xl*_t9J~*>vHZ-@SGO@dAI%G+{c>{rW9|
z|HApP@c!lN4HlRV^ttoPm`0+jyi(Y~rP_rDmp^dzFT6g`>-4uX`LOC+gOEipe(mRt
z6uj*)9q4+#%D=zp;;Ov+dXHi7z7EEx5SR}1{IJ!T+!4Ae?@}Ia;5Bo#b5IGU16_|p
z{2YbC`R)9-nD0G0#zTG*0Xo7`BdF}nmAVGE=`%iDFzEIj!|M#)chl0x515^ntJzEN
zj3VWK-bsV$K<Dxv|Hp;#^DHL2<;F+3ZKGxbm=5&&6b2=!nd8^W74>gT-(2I#S{8)q
zK-ZJ($ZoLlHREp<U3bWg6F1-S5xhRoeHTa-yw<y|5#vUt_0g-n^Is!O2f7{-;g-D{
zU){O(MtK$va>-u#!E~VOVUKg^G&+B>fJbePou;BRDg)@K&EI<A5@Y{lOcj-GyD627
z2+%?Q9$+YK%#`$6-zfTdtB%;{Ay{X<#^2|ZTCL)OoDcD|ohzKu03FYkT+*j_8<YX<
z>ndY+>f$Y6I?(-UzR{Our>`wv)y!Y9@;R=Z1*QYtuSEwJnuC1a@wVAYs%HJ`7dr=F
zeX6RHi&7=VP^NXwmLdw=JgQ(i*pPQpwktwSKZ67LDoGFi{3W~gFbAds?IWTp$a5&;
zB2Md(i^FBbsA>Vzf%Z8v;!h?|kRa-co9!RVLa*h9=|I=>`|bO~pI;ZaFbk(e2O9n<
z?CgVeo~z>fA-3?YTM9GJJ}Z_rr3%oQOx6s<(Tn7kO$gaFAibFPgXuu;&p5g!O4k-f
zSlxe}Rxk3Q#VEmapq;-Dkhdy?u=fmayN#-v*G^FYI**M44c}U~+M@pBzSW<$6*jvE
zuQPPNECR`Pt}-fYk(Hc;^}T&wn+DT?_PNi=P~oC>r)RI{r1DxwTdo642m13`J8yl8
z-{*FkUpjEt19hsNnAU4tsTF9NBBU+2uVvQ<b3M@CQz1MV?7gCc-MA!_@auWQw@kPW
z^m-@7+;Fbz?|*pdG{RgD)QJ`?;A~iZA*!xP`uK{Ag?R}~2YL?4H>c5jZtgD5b>|I!
zG)Uxkhv`7iPe!RfH>uZBAjRX7)O}*kYC%9Jp+fKn;V>~7-yJnpQ&N=G<3C{MS<_f(
zCRV?+C7+XEe)|!3SQVi28Z~*PYv^44%Hx<y_v<+Y?to72wEq)PePiLVrJiQibN%On
zfKD3~t;cdq&!PU3rV@FP6~*x`SRY!<6jJW8J>%v_9DG;ZR0^vA9VZU7cTZ&Q;d`Fx
zM4QhqbGpNHpyzPQMU}DWI3cVlSA8V<QIeiGOb2=n57vs=*e&8F9&gL{t9teJp#VDD
zvPAQHD-}UCYBVHqet)qWcfdOL>3wB5elGB}gD!)sbfxI0A4~`OI^39i!KdO)9CP-R
z;7BIV_g9)Q9q9Wwo}aWn3JL%Ge&3OHHT`(~z938odOtiOBa>n5+a-LGH~#jYf<`D@
z2l~7S@{JTYz2E*)=ep>&u1&fu4$SpHoi(wJ>>sf>0t@5)2IuaSfuq~-_6vGnW$L5f
zEpFx3zPzut!*s|Yuj~BGUN`Pn+Qg7|<(%QPM$5zP1ATt|{Pz7;CgtD_7G7bz9uF>a
z3z&VNzhBGK%0b&IPC)(gK5qcixdxf5?)|QeccRl1OXlr>j4mO%G?)(b947p|g%UMX
z;q(!OZ)IxMAQ$d+0p0g4GBX;thc}I$e5X*j5F86tg1H{({U=kg;p4!`;wtva!QMLi
zJURtT2ioU+>~KoeI>~}b=MCy=m@%~`Ob2=n-PF?)rF&*jE}y3|FdZVueu;J*8h>>8
z(7tp&F_~WxvJSU1^m@N=jOe@f!J~eGtTEx0moXV!2fFXWEuHy-Dt9K{8+|}KRE{V$
zfH@b`8R(bTD3wg*DiOpvXXR7M5QphN=Q6Vx8jZNVcI)1){M}cZrYCS6=z79TgK0G4
zYOh_sZlQ&_9_Tq7Fs2>}8Xd_huXI?`RqC!-g?ayh{`|aAq|TBw0nc(s3DF|QhFnq~
zOb7aN=EJrc%&s-79x>A2_s-_+xZz$G(CbvOQsh;~;{26}J98r)F^&mv=Ysa}f73yx
zSLwb~{&8T$@G!!s1m;}Oeeafh<Gq?K71;aY>ug-Ddk$O&`dp?voxNSD-|l{{D%+i+
zA&DOXb3M@4Erv<4iadB~5tX~XWurrn(`8^f&_1)bvtDcAxb3Gs+o2I`y-h^~(}Aw%
z>0_S*JfXVI?oYa>qU?=YeOvIJr%;FQ6KN=$)ia{twa*@}*4^Es0G(8KO`UghZMxr#
zTOMU{9nUBMIwrl}s2};_*b92xOu5HVF-!#LbnN|2{7#Icr~jE~Qo#p<v2PQsPy2%}
zg6Na;hJqAl9@sMR`%!?7S>^{<ZmtJ35ySetUj9-jN`TH-!~!OsEyrDXJrgOJAoIIK
zfKC-NiSU=y=@wFz5o#{^bnCtius+kBrgyg4-D72%n2OCpHs_-No$_dG&LCQRhwgV;
z4Q{Wyhm-&vRFXCiQbw(XjQQbj9MU#~M1YQ-lu#cp){B6FnPpSSbgcNkb$ETC_tn85
zi`jD`jl<-RUG<!f(?V%59q4uX{IR<$`fcJS4nrO5@)x;z27u1oo7TO6@Wg{j2hQgr
z+KY>{fKFO$1{2BZO1sfx{J<ZcugPcE;Prvd#Z9FZ9@Ksm(|A1_r($_aGY!yriCtqy
zSz;X{{H_>RAbO$R0MN-zQrh3(6l)VYD19(0I~hj{=!8VJ_wacpDMa<Q5<Ge?#5DUG
zULWZ5OT=L48E={SP2T0E8S08^xhg=1aW@YypN*4K&yo>$WrC$L3Z?_yFRc-`_BU}d
zg5L=oubgp-Oeg_5#SA^WO7w=*8f2&s*c50hi2$96eJ`|hW*jM15@AC5u^sHbRd}7D
zbIJ4C)tyhg-Q^m-tHWopkR1i+)cPkFDAg77GLdTfAL)FURswV~#EMDhQuhg^;@-pz
zIauxx0Xo(m-`9k(G9&4l^^8;m<v99Q!1_?#h+G=mL%*2pL=z(YEiw=V=-BXBVLiZ-
zYAT|(FEd$L4^RSh)b6!xrE3sSGJ5cpUGMngO9be2yc*Qm4oUkb-{)dxBlH-(ZyBr)
zJ?kUMDzT2@dXufUz6o=SQGiZ<P0HsUG|dX!u=R;!>ZxueK&Nn!lG%fp!S*EQ!SV`q
zK>`t=^L>;5#q>Mhr(f67Jw!!`Bl?!W`rKi2etm`f%lv$~q~gCN7PlxsNBY~Ep|G7u
z&|%#p51;eyze<3PaZA-w9equTl|#m#&ZjQeM1T&V|B#2jnPswrNZqc%p-EHUB3Pem
zjAEfEf>h#HAIW*|)qI(Y0(4#xndA<rlHkOU^cm-RaxE(XI)N3P>vE$!&5}-q$z2{n
zKZyVxvT*_haeLMb(m~5Mk&v{Zz6G#83Z@U7d-LA^WWlxDexJZH8wKcSEd_dMgmK3c
zS>G|_Y`~6I0(73EevG>pIld9+>sXv5L?A~5=umm>=?v;7IgGD#veHxilj)lW>w{1A
z=ppAvQ9g~`FBfT(j2uybPRES^H98Zi-qfocla9K2{7QfhkLkaQht{^=S98f8@B7xc
z5&=5iWsl=h3#`#qe|SgoC*_#+&4Kmtwwn{4EFFx!cja?$n2+mb6reNyhHd|*4vv6X
z@y1XrnNhG3Ob7bD;7)V7_fJB$A=R1-#^mK=5?YuJ^mU6U-O*vCdvZF9I5pdoWnzrk
zS+G7`!Pe1q>S&2O^4psAgEm2FfX*K(%gnKNn_}H0LL_qi!l(v-&d2h1iX>vKopJ^Y
z|Fo9s@@WAb(Nu~sS!Vlj6Uy-eLY4H?*%`1tq*+3CmiK#}ddR%94ACi!P6KrGDEH*%
zu6_MBz4?MN$O~uP0Hy=|9EsTJ6pgMR#`W^^C>EFw^!)`DPhY42&E&tu+h$uUb_Cie
zFdgVQ#JAY`gGpa@GgEGcma3d#zHu6?a}urEScAG#ZNW%Mn)(MVFF!y>;>SnNmDg+I
zjXHS@u8{?0;xHX(A9~ebdEyuML@z(Dqk!o^_p2n6@oAdZVRi0HZ`Af{ES9rVV13v)
zb8R^zw**hGog{|@(9EO(ItxD;*;2A|LVwLM9okrx${7GU1&yIyLHFO4thG#+{Hamx
zriJN1JAV$xa)=Et%#6BeWJPw)zjr(d)@SS`nHIUs7eyC+U*f@Odgm%Y$DwOafJyIh
zMC^-S%)(o=i|#NT=;zq9h6B7!t5MQZbwcMxwj;4{9q9QPTEzW%)pRjp@SY*Do1NC6
zIL!4xuhX=R$)~N)(y!CMyn1qwf-;N(=tPYQNDe=(-Mhm{BdRJ8j^8)|wqIgW&x(78
zvW7!!ihi|+C5ih1I<lG)3FJ@lm`*wdtnMo6T8RTX+0DbeSGKoWE<aaC0dyws6Q0S_
zmoW)HOyAFM5g%$C2kWDLIzv7yZ{Lz%(ZTqj>=wQspc5Yc>JybiycVHFHeOJB|4VT|
z=c7f0+n4l<PrP4J3qO<@5TF1$rVCA!%9Z7^%C`Ko*wg<k8ppu;uwa&9l|B6_U2x{n
zo1CFO<_GA=<ux}9s6S@?sg0SMylW#W4(K?c(oQL#8NMh@td+zq3Q9l$boxE}n3C2R
z7;eNj5Y(k43pb8}^?4b~<jNgz-JEJoMu%A?G1L#HgA4hdI(SSL&E@rgcF|zoTI~$6
zdI(GhdjDxwx{2|RWs{YY!o<k&K!8*R(D5`^^0|W>!_f4Z7mIaUZ59Wn1AXpXm56$J
zftKG9F_DvG#rha`b_8B$=>0jG3Pt<kwNes#XesV9^jQBKm=3g0dPv0&&k*s1=LhKJ
zbTr$$7BC&?`-?nn`@m0Cy(i-qOr+6OHhO|E9q4+#kzK72Mx#xzD~&JU_2~9G9){Nk
z>bSFUwRHV%V)6}`*GU(T&aMJ<>>{d5wx-6IFTbyJhv`7Se;392`F@J9V*QPzqx7rS
z{_hN6I?%aTb`8IL_HD{pW}WcUnWaCb1$5s0@J$Zo)_5%K{Nyc7k7dQ|5LoBcv#XvI
z--&Ras@;1qhDqs}2Iyo9F3tUt<mD6{57X^Zt$S+#(}7+Wl;ZYv1+CSt2jplEbMJR~
zumC!c+Y$0lqySO?DS#9}3LpiL0!RU*08#)cfD}LqAO(;DNCBh(QUED{6hI0f1&{(r
z0i*y@04abJKnfrQkOD{nqySO?DS#9}3LpiL0!RU*08#)cfD}LqAO(;DNCBh(QUED{
z6hI0f1&{(r0i*y@04abJKnfrQkOD{nqySO?DS#9}3LpiL0!RU*08#)cfD}LqAO(;D
zNCBh(QUED{6hI0f1&{(r0i*y@04abJKnfrQkOD{nqySO?DS#9}3LpiL0!RU*08#)c
zfD}LqAO(;DNCBh(QUED{6hI0f1&{(r0i*y@04abJKnfrQkOD{nqySO?DS#9}3LpiL
z0!RU*08#)cfD}LqAO(;DNCBh(QUED{6hI0f1&{(r0i*y@04abJKnfrQkOD{nqySO?
zDS#9}3LpiL0!RU*08#)cfD}LqAO(;DNCBh(QUED{6hI0f1&{(r0i*y@04abJKnfrQ
zkOD{nqySO?DS#9}3LpiL0!RU*08#)cfD}LqAO(;DNCBh(QUED{6hI0f1&{(r0i*y@
z04abJKnfrQkOD{nqySO?DS#9}3LpiL0!RU*08#)cfD}LqAO(;DNCBh(QUED{6hI0f
z1&{(r0i*y@04abJKnfrQkOD{nqySO?DS#9}3LpiL0!RU*08#)c@c(@Qf96aq_wgZ3
zTh)1PqK~K2nP0NJGe?EI(5Xq4cAqj;=9}DMjmh-;ck)!F|G^!K9`Y)#D6^VV;odE#
zT0gD@lm6@V6mO+do;&(nTgY}dnof2=eIsYGY9NNLK<?L<@Hb-Y+k0gV_n5tNmoJ<?
z9}O0ZUXeTFS9u;`7adL9ds!MK{7&~_+`c)X=gNy;-*LJ<-py0Wdd$)CvE6!w&xp-a
z?!RX3J7LkCY=tSmag_6{M=8T!UqwisjKsFAx15HIu`}R}e{g=3JNlmGu(Dt)cACAB
z6(&_+UAX<6vHTo|-vegH@c}(nFC`gNS8OZhG_=91@ffx3SME2tY>DJLrTwccA$N?H
zpncNAUz=&YK{PBSf)O*E`4&?uqD&>1LsiR>k?%47hhg?6Rzn`Mqd+`{6g>uAUCPrC
zx@}Yn2YS>Q)pp+WG%9RTx!bt?Lr%wQk2EatmXmpM{Z~w*1``Sk=60VQRIuT@+$O7#
zRb|xUk$jeJQu>ox0zI(kqw$r=Uye6wAFmBY`6(42Jd9pBW4ojGHNIOW^C)js#I>jC
z=jNXg8^KmPZ3l<kKTA&)a!6n4k!bDEzSOI_s;)BIT05k1MeAb-(V~f@M;tm<?8BgO
z^JUfn!W*Wxg;!_Z?e|OQoE4T7c7D&f>ppgOe~P+nvcZ(!$)L^Lkp4J}56#KOf-TBR
z1d{-rfKq-4&&4@PUw1e3*IS;=CFd$3i=?FAk3T=^EBj>k*ucf4?rVVdgV4MKMdr#6
zWF7>$j}^L1b{%DgQuGWu%l<{ho_!bjlzmv6$a#^9F*TydJjCbHNc!2lN-SHTd@c!J
zPnSwz^!s7FtL_BWq0=XW=w||XzEqfI9xDFwWo~M}u%*Me7;E?Be6cMJWyeKaoyjZX
zmXi`Tow(v7Ei^xd1ifBXU^mTIRUY=cF3U(3N@peMDe|l{oNfKZ!tV$BzbtkKz8TEA
zbbr=*-mmM+Kh^QAuv_YW-yDUs?GM74>+E<D*!(3v4MEq|tYe-MnQ~s^3D>1~z)lu?
zZEOnVYt8er-*&~m0$PK)=(*c@LxkOR$3s0YH)ilS2nDMti!t2CyVWNg$GM48&fl5Z
zphw2{wNg89Myc$TWl+4cLV06l8ozT;VJc(6gqhA~slQQL;8gm>%cM$v-~i={^W7#<
zLoHr*VvPBP4DrHH9rDnu`w@Oo_Rn6hIn$f*81P-Zh;bcsA^)-A$h~D7CX*%Z&!HM^
zPbrr$Z!Oh?%@qGB@%!8I7SgATTtm8xH_o$qPvT^YRe6fvcNxk$G5SbIIrcOwu}j6(
z#k=oZnG}}dt?!c)s@`v8ukbP7JQN{U9d+3JBJ;uZICC>~*pBchvbi=+lC?W7Kk)2+
z8_6p5(eW#@=w})+D=A@uNjCMI!EQv0Dy1?-d~x(OJYPHh)VdR_m%VbSOIlSC&Gyu`
zdtjlxj(*>I!_0m}tw;Vt^-ocO_r_xHo(OD?yEv`SWTt!#yNSnGmame$_kmpCj&iZ>
zn+NgVFug;lX>SIPpsp*feUBK%ee?AbE@j`J@9Z<@n0btYzY1i!U3<tzyX-gkikkzY
z)kD(if7p#;{c%j;;I7wL+S9|x^vg{Vo4J^p5$YpPHM>7SHR+9c2hTRlUV&hEFx$ZY
zcEyodblzIBti%t)*%?KDpOE=A;nows@SPL8UkQD?@@U~aDAq+g<2r=y`PJW7+Q@8s
zrModDj?1GGD=IK_P06Q+O?*RDCFXf*s@-#<e^pt8XUd9rFAI7^#fg@nel8e2yPy27
zJ!__~-~N!mOu^?OMwNK04F&(WL11!m{!V8Dif3F>ZGr68f4A1|@#p{DT1io6$9zpZ
z(QmQ(yK20M>tw4pF%pu<vbBnyUmCHeid}n6AN*amjS|Chp!oMs*+d!Xeg_}kXG4mL
zSbvV32kJ~meCgLZ;wE*)Z{4Be5I<gj%(R@g$SPFp7q*u(lNCVf-^OQLIvXLtsVVv_
z{ps0S$|M<OQGOy9PM3B$PxO1i8mrvLl=&(s{mjbG>iYbz#L5x}eCt|?i9_Rb?;<5X
ziwfAs=2!BNII47QXcZN#so@r^5y-1EK|haQ=Sa{|*AI64^_0})oOV03CA%@ti>k*i
z^`+SY>wytx<IT+!4Xz2tp%<GI`iita*VljRXcR0jcZ!#I_wdetY!YEtRr`R}KjWfX
z5pU2OaFvfkYw_K=0p(WO?AC*0+OKkM%KNj_XJw&got}hQ_H~1i*HvY061Fpr&mX)T
zTIX1ZOd_1J?+v~>IJ(KgK7eHs`#{HREYC}4#5Ca+jg-BFc0$Igo;-HNqEn}<_*hC|
z9qN^(Tepv>`h>_S96qz2Ilk$9eUg<LSDAGGd-!{)vjXu&k?-#}8(%igzLt{1(`dh{
znIKRe^K_k(TN2y-0|rM1uQR7*lXyZ#(_*ICgV?E?3wD&12PK?4wo@U&$!(7&)fi)^
z(57xP`!iM!5vNw+*CsK^X;-p4&)YQ?R6Gv;$){Mgx$6_I;HPR?os~kyCM-qts0_=H
za_V7Vo2Fu#rrLB_O&BgAHI+GQL%9us@|<!4CKq1k>aEK3;5+5iH$Q9c*=NVbcKbXN
z__cg(@$k8)pY88AC=+JC#<kkIL^imV1gq3|i_HWK9=27B^-cR>%b34<KH^a>V30ec
zHLqS}{q0O^{l$@8USV3F*vWLaN1fZ=6E})`r&9el9lfag|1m#O^n4w6Z@qx2@R`a*
z=_2m^P}LTVsLuYLpvjX*!IjM3Mo+$dINK_B>$)QFx-A_|Yjbu}>T&91svr3iF=9-O
z<&o8ecANEfjCak^QPw`vX>nyL5;Kpd=Vle#-w#MISZ6l|njg&6QA}15ZdhGEUioEi
z*<tL4UwTSDFLJ}}HRE@j(4t>&#N)+%)lHn#6BiSUodQSExBGRmH!-dmJvL_aGrd84
z*Z4b5W`w)M+eh()%Qod_Mo0M*`ZJ94_7_rF54}C=q{+W@@o!llWAlbetn@su!1?dR
z%=mMS`TPG}aW3cAeq(mr7O3EDcSn)lWn}+yBm9e{yvogg2h6OYA1S%QR|>|uo|>vf
zdrxJKS*qL*XHI%$m0!N+u^p=Wk6KmVR<hPa<&{7`$<&dBGd>!FBB^CJ<3f%8GkWSV
z6=Srpo=>6I89%aSe<>i=l|2p{_q5&BUng)W#k%$(8n3&>C0?R+@25eTkXk^!MsBGb
zE8R@OqTH%x0d9jy4L^^$ud!F?`LB6v+Y=_E%^U4cqUM6wi{9w7lTM}ZW!>B6mzTp#
zT;t$xK<~V6IYO6e|CECK%3$EenEGE4v0Fcm8EzfCEq^a5;S}56glEP`@--mhB=dk-
zrcO+1jV55<colDHX`+2LC^zYZX<JFr{%ksWyZ+l2{%KhLDc9ePWGq>_^m8)@BSJ;f
zjiXQb#YbuFKYnoYe^~o+ZvLF-9huN>aEXyxwk>NEerwoMN&4}}wcd9bJlbj%&F`tV
zpA_YbdN#A0xEIq2E8QPS-wdQItC~^TNJ^p?t`NZDai2wDddP8WT&~4M#K2(S#!pK8
z_~Eh%-r$63GrzazbHdS4clBQ_3&jsR?0#H{5Q~X&jG;Dg4t{%-vYR4u{+n66KA`b0
z@xL?1QQ`0|`$S3k9_B*U__BGFUv1q($|9@+yHZT4eBDW`g9UrX46ke=bi4Z9im(Ru
ztxWdG$(={idh<+!rbX&&a^BdFs&ZHCJbn}^NAsZnc~DQB@PcR9hNw$#GI_Qmg-L<R
zXr1@`TSBXUqDQo+Da@hXTIm@Ho#l$$yx1l?1J!ZgG%FufGWQ&=j=j{*^lmAo2^OCA
z{z!bY@ylAJ&{ykf5mw4WmU`EOMs4R*SwZ6VwXVAZZDl!6Oq{leEN4C~eCt|!PE5&p
z^EGwY^^<mG!9+rXsSbAPZj#Zow!c06{|h`o!@tYa@&i~w_N4m^a8Eyk{H`2(i-807
zu&o`|9d>4YgG{cPlRGt8W8ab+*E}-?GhTy8u%}P=jy-yoadh(!hhT>mT_^N!%UejW
z)B4si-1Dl$-fHk3nwpC;I2YfLr+j|Hr*s?P-L$$VuW`viQ*u#;eU2XCkiLeEvi;sh
zzfGgV*y(6DU9zb+e*0OGtZ~7ehTs<yq<UWT6mI05_Q;vv8Wg6Q1DKo6n|2kuA{-uZ
z$dD(a7cSs-4My%Amo8#L9?2}n-Yr--x&58{TnJRTeF1PcQU^!dh;`TVPNryhR}~t%
zl+sf24bu=Cc}TrhoPy9tl3nNKZ!cw~206VQ1*&A?!<H`JXhs)w_h#7i^#H!Hglpf)
zoEP)D<Z~UrLGkaslFu^geBLPR-6@o@Fp(~&@4oZatr2qxFnWBQ?b-7=V*5Y$j5j*A
zzshxI$W@uKt^NF=W#QI0KKhOK;UMADIcgdNmg7k}T>Sr*S6&Q6i_51iZjt#1tH71Q
z`>p}64S3qkoNaUBI1GU2{t?bAeB`CHbb+=&U%zBrVnRxYS=(t#fBo5p?(OV#>!>?-
z%1nns0@f2*R%}UeG8;{wCsWmzk-WTKbRX#L)hO}hz6_ZVTufEZPr?)PmXMOYByvZ~
zlBKh$(x<{CN}0%?86gAve^l-&HDf2HxiMk)@qIOt3GsA$Qi*D*D#89r{!nH+W2Kh1
zl*Btdyt|}=Zq3=g%!YUV6TR3(;aL*WqTtI&OU}zIn%jSM&}5u^NVlUxGK~-=gj|~U
zy=t{$;{CWj(@sLgH>_;WS+QE|ceOMj^To&VY*V_`I0<`#E?HYvS}9eTPW$F(B>Ajy
z{ksRvc|%1`OEoH2+}}|plh%no{x13H(J5J9sJ@;*m;965JK0JOz4fbLUw3V=rgCky
zNt1xR?u6eJ$Ijh!2fh1;m-FrXIti9sF#Fx$%)Gq+%6zZ=@a=_3^7b}Jb+an9CnG`2
zly8YYU@KY`%KVCn8Xa^eNmPsXF$wgAu1R<_%dW_(Eh`l=d|VgaDBB}P_z6>Mo;KtX
zP9c{-!UOxF5|4b9A5J2|k08e5b?kssYbNtImi}T%68TcjYhH>O@ct#mHk)q%+(_g0
z_$xB;7(m?C#G@2{a87_)9_QG^Q=pb7bSXG8^96ue-?Y_*KnA`90LL0w|6zOTE1+G>
zXqho&<{5yQcm|s3IV&rd*x+-Zeax7|_8SYJeawp-UCq}3=8j>uEg(bR02RHcb_KSg
zZy^IQc!zF;y6=EP(X4Edk?(=Xw|S8wBR@da0YL+9habiUJf#jHka%H&1loQX-JY>x
z$FL_H)EUd@>d#AL%ECn%bSs5D*?fVlx5F`gWCb$uzOFwga^>T%K;8hjvBvFjj;vv?
z1&V>0)&II7VGECd(1}5xvkX7(<%JON@XAD;k%=Qvq>k7X)HvVf=r%HT`Q`Z7C^9E=
z-sSqd#9k@+v5V3l>`P?E+<7NHDJ1edHyF7fy%Dk=gAWPq__h<pXu`IS*ptJ+ndtI|
z9Gh|L?rUWC9!{KNX2PG5$4q$V?CVK|>>$Is2~cxmk9&EU=4FP991WdnoiSwlj7t||
zG*?vR$cw=C)QNdrO1eTGNF9e~4@YInUhx@g4<ypEb0a}>?3sNRQUK9D(Jy1pceu>G
z56!`>P^~qz^)hu>aO|XS52D$Q(QE^<d;Kp!t0i)LZ~%cOfu**E8GTwH2QyB<`nFXW
zxX?qe&%lo%pMn+LfSl?X$gq7&-HfE_2t?jGknb3_&p!VOwr&7<Kz@T`HzD0OhG55r
zdLj0>$P<vJy(4q4;L8mz_!R8_8j#Aq0N-fv6T+8ZMPHW`+pMqP4x|a|!WmfCx9c3+
zsOMnl`<!9d3|!ZQwskN=!;4;Ydjqp+3w=Y23fVj!K99&miPuHWP<>L35hf(G)ffxG
zSQBb7YS}>N5R~y--7+hfdBSDGRMSe{)0Q*p*-eqXL^^OL4!X!*A$2DXdK5dtoo4R7
zE|L41J=Vzo794qH#5T?Vx25!uF+~k!ZnqSda@BT@odH+Ks$5+;eb6bg4_ZNHCN^A&
z%&VL#J^7A{m_<&+F><eG;CX*n2#UNg%-mg%{d~{*-079(Y?~uP!WY<GDf0~Z_L<M?
zJrIse2@lF0lzV}k$b5pk1pLDBCtB}OeO$^7T(vJ0yBfQIdx>6-A3fZDo{x{lxp|li
zpAlvc4G7wo-~<W!gX0{oXTd14o_C)cFlm_wANGo&Tk#H@5Wz2T`2GcE?6PqIa>T?!
z7hKvsXE3?t=Y|{~?HC^tI9==WQspIfXkLMR+Ymo<Q^8Gn$Qw}P_v|+1{+bGWNSH;O
z3SJ>=_5}hR8EEWk|5vb@8&D9uch8DP*ww##@C0+rkdfcu$cW3jY2UfUVEFqj2IJpt
zYuLgOE0h0P@Skm|*lfBQ+Izn1%d~UW&cfkkNM;EkRhch&%97VSU1|nTFGj8phwerL
z66VsJNtVa?k-L3E8VvVs+Sx4PLMGw&iYrEf-0a_#tOT`B8_%8&vV6O(*YJ4MUv1TY
zD<Lon|Eh?N;)xAH$=Sy);v=iJ6zv7KRSWW;CfpFxcWge{m$c_+<Vv2>O<(uhPVi;2
zH8uW({Iq4op=^TK;{O?w+O-gpml{Oa5C4-eX-^-8tv=g!^!ff@qoK7B)NBo4_T{ug
z$ZksdW1G@2iR=Lp*(07)xA&k9bXmiX-X-DtvE${Ufy7qlFqEg?3HWtrLC4hJaXgzo
zo@t^8c-rNfYg^h%5XYZ>BR1qhUJ7DOPfMv{tG?N1O-9Kv7tZbm(NEvq4Z#Ld8-!e%
z^9DDVWdFaJ+1m{G!kH|unT98P#7s85nw{K|AKx6@XU`GpEt1IP3E|*56FxLC>P<J_
zOt|=JfHnTC&z={szBG9J2$3<0!;p;ScO&+Aayq=Zefkt$USZvhDd=;;=K8t(kS%$a
zyl-&(&l528@^b2l?zyM_X;Kn-afte-a8Hte%cp>jrP$91ZmgTcVHjybE#ov1(kOhu
z$AGejgu+>LLLWLs)?X0bpAw#f(!SD;5p}^$gEJojuWMwwM>sJQTKBlD?}Yj!>X^r1
zwV<e{T=ty=33QK6Lmwdm>bqZn&tp$a`bh{~bfZ2NAKk+8IfO>{7HY+1T``zZ=-7x8
zYug+lv9QfA;bCW-nWH#}BkgbJGuAUoC+CvELkh<b`t08W_d^i<cN9@udvZ!B2|LQD
zj&KTa7$;GFXVyRQyiPFw5Z%F)g6F&9hHiN>SP#QNHXhsNLZg<U=%n(CLB)znO-_l=
zndQbo04_JjD-Mx2yuxD>RMW|xe>l7D|4Y6;n#MUcND#zse+jPbM?A*zO#?@?9MO;u
z*JpwfQG7Hb4ABK15RWXxGt6|wvJ9R%Qh!pV`iB4iXn^#N88%qpyXlMfG>BQt+`X?k
zkakAnP?8WH)3v9k#Ft=0^q+vU@5K#j6gZig%y_~5IC>ownp1LESgka|Iwp$fe~po1
z^x>b;CnL$eEX8hNv0bMAQe4aTtA6c*jDx+qnw20P_-juOGMDR-AY`~#Il|kcx)GeG
z7I*|{UYy(ofJKynhwM{zHI^3{lP#I>9dRG4$Ew0h$3<LzDMP32P9b`M&-6TyQeCBh
z;^VNsbsRSCead)+I^No4ZJDGWK-3N;`XXWTTBH<(e$A1xpO|u%VdteL1|wYpFH}#~
zrs$Vl=XypxwMXX3B7h17ycXyhQ<0UP@&aTvt-0Q7#@`gF8dLF0L8(~{*&@=MitR#8
zvr2wbRB2X}Du6U6;k8)NtcI+x(42~$T~A(0w(Y4;%XY%PG1C+$*IOVbw;OALo~<)~
zUXeQV*Q_VMD{Ia|JIUZfO>@ocKMJ`>mF(<Wt(~8ISnoP9zGkPgJc~LcZt}5pK;+Je
ze<j9SXRF45SlKAwBqee|bzo+w%>r%azW|;KV^*m$3+ome@^FcjoAS2{LG@-$>WNR(
zgB5W(mX<`;Shg=kGgDhCEp&j`ePiG_a+f9L?q*Jpw`jaSG7eGycD|`@lBX8<VXv%p
z#Y|Or=h%F!Hu&r)v%soto;nKEbJhMSpfFS!-B4BZv|X{#z0H3t(Jxh6H+|HWkIZC5
z$R8cpN*TV3R~4(<%cSpD`V*+p2D<*=0h17T+RdG7bJ{o*hG+i~HeldmlcqD-X*1n6
zZ8!a*5k>}WY{`{m68h^`l5G%#hS+5Kb~;0vV4d?=(z)njnS8pwSzqczzmM46<gU8b
zB#QM$XrrpsREkB@B{M`S!i8qakOyv7H|EB;G9SO(zWGkS{c}x*wurq@FvU|HMc-CT
zvCEuRn%!L5f9nrACKoZeG4^Bjc`G}iiv=-?azo~_5(}-#U~pxx`HTDpt`}3aNV|J^
zj?9XioxDkVNiEQdi%yA~kSO{}6{o^ni%bp$dl=Y1_7_l6bG86`7omvww1{V`_!VWH
zLpCvLLk{b=lLXh@2rtUK74dvG9=5%cWVTnn=z2rUhLlv%LZ7~VlrfX8NUP-q1q!B?
ztV;n+1vmUBBYeSxIbC3C6fcN2)S7KUEgh@1e9(ha6+O27@Pdm47faU<<AGwCHEEHu
z#X+TX7dE8Y^et-bp(z@@q-bDDQ9Q5ZXi`+Yg^Uy{<eHI2R$noREVwbYE?cIaf}U-c
zuEK(L>0H!Wa^Ir;n{;|md-3V=fjb*GcUC*HUghI;O%nE}ZW4yhd)c^Zm=ZMaC1TV%
zLD%$+Tk9;N>C?^q^pfFYgXd`cS$`>Egy|=xHLkXS`bn|+nbN6LjHFWNe)TeQcl6-0
zAyO)~;3+k|8tGX>?<6U(@^0mJCf=!B8|eF#-G=yHh4-4jd%AOAT2btOxMs}wqnG*b
z32`>rb+PNS+2pKFnMdz7Q#!l9o#dK~e^k=2nUTcEdnWYsR^Iym?EX}1IaTmeos9nq
zBxJBiN7P(gkVaFNl*mhqk_%_3x0{l^m$q|D<!<!Y=)mP)<2BdZjK8|iDDuAqxy<iX
zpVaD&EozgaRLPn_pXwu{{fy*{cGVd<MmqNW?1c&O+oK7ww}j-QlcN$ZF1A;Ct#=l<
zOEsTS!-Kkp*<-0L5|nmsSb@`SbDI@TyDq5!YBz<!X?J!F(B3$;c`nm?ocfHje1TJM
zy(4?Xsn6-0<v{he7*M^BWjOUeG|Mxb`brR40@TNi-E*vdZ}=LhUl6L6IQ<1H=1k%A
z+jvhTLjQ2v|6F2<18~V6;TaCV<$Jap;sA0V01XzvO2+{>BbduaEP$;A96&Sk000;T
zW{7EnkRWI1I>2;;kie)7j-Xv!!V!3XT*w8OpwbLSkn@ZgUO)+)OO`p9U}L~_kgll0
z5xBSnnh^>J6w?Mv0GgW#2p)J2^hk=OjISB6C;D0M(f|ppLng~y&ani7BE7OB!1@D6
zU=#z^flrkeJOvQczYuDS;`0g;n#Mt*n9@9lBS1n!h>%Oj{8@+qGRY7D6d}jKETXFh
z974S_2D5fI4#o{kRA>ZO6<`ExcXWw+mP=%JbUCBnsDMR4t?dK|ii#z}BIul_U<6Z@
zIS@hfrJznS4xt`FKqI9eLMT}Q^9B1!Qbi%TW3o$MiFVt&a14Hbq@tK*k0i*Os8V!;
zX0R8eXod&M(QSd+1GC4V7)3LnHsgd0C^s20pmqg?45$QZpTVRnFoPAw1egJpNrnul
zJT7FY1Xbvm^|0dbde~t7q#x+|L<Y<N_EGhKUqSPSddXIB3G`8Zr0J#O80tr%K+|C1
z0}|l8+B1N27|*~(23fWX83bFy8N4t&12Tv445+E7kO7>-xLFw65SWG3WH${{R`Z;v
zPzFBdIX4JDIcc{4T9d%-!JY(@K`;+7*_(-R6Qy8?IS1wUA%tQjgRGzILs;49=76Pi
zlf5CIrWwOQ)C;_8npZ%G-C!pMLuf+{By{XUU^`}Qov5YWNjTu~XFmWSrr}nYTx!e$
z+cbQX%kNMF)<q^2voRDk2A%G2pe75JAt~xD%%G=hrn^VViDt_Jvm2qMXb&?X><5m*
zPa)fODY(%%3O@>KQg0kZeaKAe&)fr0%tGHOh2f$?V_4sX+D<szd;A7A7@CE<{+r{2
zem_P$crqq~JS4rx@u$>>I~@tMQr>bjnMNf*xkk&e-SY`bLgV1j7B_`bxe%*?9NQR+
ztq&jH{s4P%vwZI1CF@ZQq@T8jySVb(oK)jL!sHy1d$b@s%LOf<J_P}-qQ>DVEOxl!
zb5q1}O$)MHLPU9yC|o~t?E_j|Zb1%CV+4T2;cg&iR&oJ)_@^al^VBxz;Yb1l_7wvp
z@lLhzumzl?wqu%es&OPuXSK5DGUIxMBiU}khs~R|B!PoP1;3{xsOT3T?h!!E<;KG!
zDH13Eh9?uTM|apW>Y0HSCG06EH#-csFnAt0|Bpc|d32<&pe$%~IQGLG9ukj_)C+2@
zEKZ)R5V@$#GY-kF4<`7Uz=+GAhLbif+CjQmG0lIn#gn`akU9*TnxbN9gY{g|^q!eN
z1Fa>SbDVBfz;r{7#@fwD*Sb%=d}ve&>k5t2thg}c?wv(1cwI#Di#LGyMO7;*=`Cu+
zXu2xT6OqY$QJyCw$#`z_iL+$PT&4K8I-Mt`eg@Efy?;ybX*uCLIcmr5MuF#u`E^5g
zl;fJYJ<abdph~>XosH`j-@e-73{jJM7ZQ0LuvsJRm2UKifpsf?#JV~OIA&U%1U$8?
zo6DD3*7Ufq8Q3q*kkVGjd1Cg={1rvHSBXuVw@_T)Tt6pCkIA6Cx~}8R{hPNJci$iW
zE<S%DBloVB#9mP4Ci&!ll*gmem?<UI_{x1=HSZPr;1d42R211zBS|gEep$!J^7+?n
z9Ft(bWVEmn{s)9-T9w(X0mKS;+Qpn-bKE8r#i!rM+I8&qvFY@|Gl`p|PE+TFK@!@f
zL7)Iyd;94NNc(4MKP>cC=f$3}cljN$aPNT&%Rb%R@9zD*|Ha+751$`?{>s06ykl#(
z*XxbYZ+6m2UtOhNOgs-Zyml8~`>qm?w~ynUW7R6W*m*lPezc+rZ}ZIW*}yIDU3K%;
zjJkc;58|C^xHtCKx4*F;SPoWt(F3pp_getg4O}CzzV`sE4{u%)TTR$nndTb-_d_PP
zlR~usuGFn~25=Rxg+g${8xh=|H`V~S-<?n$fIDhth9$YHdHzZw@W)JWn!pYL){NT?
z0Njhd78U>w`InhR!RzDTYNe*=>ra{FXt0><0OaVg!WaXPRZ34DL=No($Z=@b<{3l|
z&kZ2&xRrd_&-wanR?&3#?<Hs@JPa*iXm9rbbohg?vT*=(3ZcDeQRvYL09wgTc-dpn
zF^U?6Lhn85shcgg0CY?qM7ts-Xe*otp^3IBO3+VIAwr53jgUKm7-q4v+29fA5JTBU
znHq%F91=()8Z@sX+FOBm>SRb;*(`~kelhO7mGwxHKOQpK$(%J@DIA+5j2E$$A=x!5
zViV1<A~sR}%4MhBviRTtw(JK*RXWOMM?Ws~2xG^GN3lU;E&Ae48OT_RK25elqu5ks
zhZ45sdLuw=r(}a-`*BbRwv!vpW7`1s<jgU7ELn4FMnwJ&KUrh>vVQI6<Q19ody>KS
zITPNP*gU7%pU;IS=fbV!dl)?YtAW9vxP)~()d7hzxD^}*r#hlh1g8pcMR2M^B1Ld2
z3sVU9%@zd@%?XWyQ@OVyIF*Gef{&V8SYmnFO5Bt0K@l#k4wIum!BIhGS{GYPKA(z%
zS{g)<NvpKfJ^-G2oN5m!8y?q6DEFG+C^M1ZQg<Z9qarwJo+r2#JKU3}=74aBlSy!@
zy`UmE%E`n{k<jNfWy4%}+!YzdTFC|jm$g*VFB)EN=M$n~pwpem{Uei}EEL&H&!x{B
zBXJuNMXx21cQ2w_F$j_>Lm@r14(oX`D_2Axwd0)t(5E`)j;j$tKP_EWD7y39lZ5#~
zI%w2QlZ~pPnM<FRFLi8ZN&1iHXEl^@G^M65nfU3VO*#?PBJjqFkm0BnkGc56san>G
z4uYSKw-Q~C$i>GBBXeTY(^S;6@m91lyjL*s9e__;vf(4>rFQ^)TF=Y|7l41-ihynu
zr#a4kG5)9XsAsg7nk3i%S;7y&hw7wSE`Pp1LAJWc<xl6lyD$cHvt<9Tu3oHeXfBvO
zmI$Eifg%Ck?#W8PxdP_QKWeJnpDW;aa*)dS<qAmokK4@{6QDx~IA%al52Pf7oCR@j
zE8aH=vCuC&2oK*-5nDL=K#D=|HB-U41*Y)=xe87bk*aD~u7IkfkgFhZ!!jWGL6W*c
zu7Xn)jVc;sD@X;U_)$>RP;(VbuJjldmsGGiKc^!6*0fZ&H>#^l4F_|0NKFV0XEQQ&
z21G-Oh;w-Cff}Z%$(7^|p<y15q50Z$(rpnMjz_WSb_ugJoJB~gMD<@ZP^GGT4aW*J
z*{<c~8rHA47NUGrRhc5D`#;YiUu&{+<Jlt4M+8}@%odTV<4K9B{}MFw^I{R#uZ#(@
z*|Ex0aavRnerLkvD&D-(7i49fYJI7Un-{f>m_cP&^iz1->iSY0|Jv`GQyHbRxxG-z
z`u32?!eZBNg_D1a_J!9XN$}mJlIGswdJ__BZF%!e`2S1P_CiqyO|>MTzR!f(et9U(
zm-l2sX)f!&Xa4|N?d>q01DXMN+NIA?3xY5d1z`F|-oYeaHKJZd7=dq>xm|1!Q?{$r
zzi*n)5&3!!=YxZ_s??;oinciIJ9)fFs1acF&h(b>>1@ureNcp=jiiIQW6-`MT+*zR
zxWjsbu&#gF=azz-$l?(CfdaokH0J|Wy=UjgZB#K!SJr_SrukwR#ic;VZl5R(LAW?K
z7-t}r{}^&L%z7vFZ_;{^SlhA#pcZ)A-JNZ7+C~t^r{Bl|iHDcQmRolk*G=p+%^Qsj
zXIlwKL^_P!Pv4UOgM_$SNxOHKPG&qj1pYrQ|65klt_VI}-@M%Li)@hH-rt>n4gdb@
zI_PI_v2(Uu#Z$ftIh*wywpjAFVE;%EahBfj8$NLZcNX%{yNcL+=8L<(1faL{YTq(g
zthnrLzhr|z_14$o<%7UEyM2G8c*jxTE<^t8IJe^OC-$^pG2cGn@#H&;2N%gaiF^L_
z4d48`$iAOnPX772{(bT3K5(Z=%G?}sz|%0|*>IZ7=WNQI-c_0`uEi4}PtuLLdmBdS
z<UW`<-vZwsKZ^fQY~S|1C(a+iD4c~$@le)Zgv<ViaJhM<m%lRGz4Yed=H<f%KIB|P
zeA53KjL*f*=wZc~*z7RPSg>F`%z`uD7yoe=sG)U%8u+iA#k0By4cNg`<Lj6wr7-*t
zwyW#Meyjf2x35wM$2|^?02f=f@UG(X^lAIZCMw=VvRH(Ef0-=L#Dh9?#5V1fzGRo6
zPkb0S?rj>qi2M0k{IE?V<HJO<eWWA^{IEySc7cy}E8UI7hnu60@lY$Vu^F{~EsZN{
z$tL8{6N_0IO*5zW>*m&Nn1&1TNc%SU*XhlY)x(?xA|0`rGrlbD`T3n4`#5J09>VE&
zRD2Xqo5M%-xv|Z__kR0LnF2Ru^PRXw?D04E?rq8NSF6ozl}yr>ZafK7M)b8}Js?I5
z`yvbUMGh#@_5Mta$Bqb$EM}Hij*bm0a--r4-{SBQ0%F9l*l}{sZdfLs{~&ghY>cA@
zNR(Jo?m=0OhZeu#=P-@Jm|Gh`IzW^dve%_pD#fS#Ih?PoECe+`qQ$c3Y<C1i-g!=D
zqV!rF?cLZER&Bg!5q5p?$J%%j(V;|-@-Ud?cxdq(-e>GCWz5<L(gC8xP{;Ajp9B*x
zp58WxTm5aLi4-HM`@?$9AJHS@(SlvFM;oK6ixfAi#3u@VB2?VC7Kcj<(n+$4%e!s;
z^V!UzxDulx$Mx@Lma^NF&7!IJ&vrYO92O<E^KG^o?b4QoW+i8=MDhtpIVvbMpEUk?
zNGnnO24vm$#~2H%-KdqgzCcf%ItQmt4IEqS#Hn$gv=iq~_W7HtuW*?4)-G$~>#TiG
z!rJ)SGsJF5d&}CYHEMc0u-0v>?SS=m_Ktfy-Et$0TMm8x2HEqb;d|51O|0~ipMW7&
z8g9DSlQhT!K9AxjTEU*P>HHNR-Xe;Nw)u6$pJ_$=F<a9rc*~;u8AGGeNknZzkQ|;9
z6>>y&l&hlILoS2mky7iAd(bh3>kX9*k|$2fP<Y{_8jc4}zCGz@Pm&q{N|X+uOb9YT
zLLU&MfpQBQxgQ{Mh^COsQ8`1Zif0e043<ag+w(|$(nJ!;D=<k4zkrm<N?wpUj$=Vm
zXs)dsN}=^DNDRxV3NaFo$~EcSDc9}KSxhg2V}7|valC?DMbqLMMOjdoP=nHTTpm?v
zg>S4Crj1HH%Jhj1AcvXSq;h1*O{Pkl-ek&}OoNseYCFGa9oj$=%cUSm5~o6xkvs#D
za`Uii(n9s9tc{-DuFcgko!dm6%)|{K5dGXh71eJ0DFb?QskAVybXv>Z`9;&Vks0-*
zBwbM;l|`yd<r;V^?xcpE^@X`7Qt5A?UCAIZtfj0F!(Yn^L6XHR*F>_sLS&gN$wjb^
zB*;~~N3nY8t$>y#<TCow1m*z?h0;9CIHFQ%P>nwM0pu{#pHz-4AIVhd>I;=JVlI@)
zpsnrt<~_I4yyu)nF;4>BqNod_kto*k0E*&Q2|!_z)d|x^D#n3gILi_yhE+uX)$;Eu
zeQHQYtzc@J)7&76GnVQLCT8gbRm3ZyfQpEv6ijhkm<Cg_c9NU6jBBck`h^A3rTglD
z$YUmSh#qbxf+!*;2g&3-sf!!yBDuJME`^KX@;EMr>tVTAHZP;eQBYxYOR0rvJ*Cvg
zHkDEksorg%Xu!uL=@_7jR<Frt!`#E!Fsd~R6-HmPYGL#}@FwE42}7xmvnSp}5II9B
z1<^B<Qqh~vS*TeOJt-<BNs?mSMO`!%6>w?%6a|nb&J$_^^o6UIByhD_6w}xBSJt8Y
zzJ)7dxfr5IVqSnSl4k)*XjTPi9XmAp4RqlEZ}a<7e-&>ztU0E(d#3gb5MM3lOgz~}
z^5aR#kF}ECW<6*U+bjhPvFgE{vfz7KL)$o*9>(^a*m0rTz(#_lE&Q^%wuMY@v`mGk
zMIJi&Lt~{24h)X319FkMS8t<m{QYh?&jRnqD&cILuaf-#Wuv>~uDG#(X#1OFXmpi%
zck2*KW4MFLZ;M!nW>w(I1FF^`)=wnbhglhdvJ<d0U}7I)?Tmq)n6fr?JBjxVxc2cK
z^&#1ZSbtJ@P;>b)v!If*G}Z-Geh6q#y^feQur+)3_Qke-?+!7jnFFk~kLZTwl6P1a
zyQ9m+^{0#FSXhKd;oSexV?W+&@Qxsr>eeJpsahN!6|yENOogLdo|>eouSAU!Rf<mI
zET#I=C{1lCX`Dz_H5!N87l=ktDkBrdSxR-OQJVS^bXZ%0YGtbJGcy?~NfB%Z)^SIM
z9b9#F`0%)7)X!B@avP0UeRbV2RDHb#_2Ytjm+WEnl;6UlXje_+qckq1H6a)YM5`hi
zAEi?TO@Py`d?o^EQ#%u&bSa#Pa1g3yBC^IMGXY1tdYK5MO|eXX(ydaa0_svG<1=-y
zktvy47s!-Qt*c{FsP?5X0ak~)_yo;}^a~#F+a$wjGM}?4cY676guVY9NztfOH2fl?
zuB-xU=zdh}u@d_u#&>`<%qC-f4z$QHf0NzM51!1}9e=NDk2PtBbx;+N`~*>Vz$1GS
zb6!GIfP3(JPY1jxsZ{xKccoMp!!}T&rY36IhBX-mv2TM{Tdp(T1_v8rNA<OtZNPVX
z%k8+bVhx<J*Ko>%Ec%x@LqEU$N!;9V7ZZJG#5m5^NsQ}vjpPI_Z$ke&`JtWblhFNS
znR$^|eXrhi{`Z@|xwoeS!L@AUKf>{*f|q$0#oyxgzQ3vy2&89U6OE!h-z0^pZ~&U_
zHPJNauh&HcX{Fc6qVAg4MFVe;*Gbg47hWfvqU~K5N~O3l&Z6$N*G1E$v0f`v?dckm
zp=#RNuN~{Sn6!fnI9;Hh3pz-kiwrz7&=jcAJj38{I(PJ5RqyU23|frv(Drq<g?zi3
zw~W?)GM1LhnvlI$=N9rE)$2Ag?kjj(>2@`}jeONA-&V#Gb-%5+#h!qTaEJA{jeIAr
zZ8AcceZ{4$zetHy;jFLXtp=^RDvG6~l}f+N+F|CEfV5ou+ZffOy#f4iPJw3vyc{e8
z&N^V6f^G|@9)B=KC!L6}i^`U8Dd#4P(Sb)P%n|D87;4X^8n`e=2c5w%OW1HM!z`?H
zQo|gYo_@9VY^r$<b98!p=sGY$r#_5fHX8)708?8ZVn<G_CT?<0*aV3=Qs7Vt2H+DA
za8v*q>*@Ul#2n{s{|57B3=QXQJVCXH(8x0Ag<=n=T1*wtaI_vCAi<%Y0qMp>WgxEg
zgKODE`~vN?bPoDN_3prRLex_~cS6*gaJ!%ysIYKwwG~=x<IAaK9#|V+WG29Em`7P#
zwIGdd1lBTbxe>4C7jKgxiC6PWRvWIlL7G>)mZyGnv_;tj{f%}h!uk_&Xj)x<hm5Av
zg>R^+x?k0Wo~-SqU1Vhc(z$$hbVt14E?<6=`@kO;^1(y$ii9AywiX2Nv>!Q20~71T
zQ94(N^B<Q%^<miP0iYIm+O=KVcG@}+UFVN#E&(37CZr@yQ_?nl@iHL53D`t73FPY!
zwjs7a8fy#u(v_yQ<e9x^G&h0$c>jKPAGU+5;NfZ5{OA1n*|*EV)~m41ir<H=l3nTU
zezMA(trpIh*-jYp;6FQhF8F5OhsuX*D~AWJH`^^zOBN|rqhB%m!wu*DI<%QHW85C`
z-Lm@yd)f<L-Ld6}@wyw>p0i|={Q`>T%PS{LAKxudx8o)Et61N5%dEY0A>}(*4bI-y
zE@y!qGQM;@C-iyz$lvIhN^e_t8n46JBCxA(Yd>U-(6>YXm3hG<A)58A=d#7*x3gHY
zSn2hlKa8JBpKo>S^EWD4*UV$w9pAAX29qYAt(VLT3*9ruUSkL40`(Ply)Z$(V%MVO
zTK*<^fO;v(cFA5ban+o!9@y1S_IPb}TF?JJZkNBF?8?~ZtTy(&cgDj?kNeB`fok8I
zuuZoz-Tfl7hm?ym=2gcF-(xWo8wnH3O}<p@mi*^xJN`5NS!ag{8?9%WJCvu(u-b_p
zh<?gh{REPlU5_AXJB!6Rm{_{rq@GY<$hWb0j-9xb>O=fz{PST+i_lPsz3rb*OwfuJ
z?fHD*`zw{6#>-V>w@v6ei|*TQfxLZAU%e5(`g*lsxi4SRUNqMKaJ$N1v#hU>_)V|5
zzlOC@)!*bQ+N3{4cc_74#MXJqO)}=S-$&_L^)1e7=!+Gbz<`CQPz^n=WF(Z*QCTg(
z4oiFEZY})rD=J<GB*vE|BAav}V(iZnhzLD>F$CL3q_~EdKue)U{ssi($#W9Fj)>BS
z0I{kGn}=&Y@~3VvhoHFysQfLFC~&4QI^Q95bVX9*Gyrk>Gk0;rxd%6Sj)G!zlOY07
zHtfc>xnKnOBE*fBe%xinp>+cN+2Pj+J$zjF@R@*a%_J0?f*iYZ#@xT;CZ`UkN`@a&
zFEfXw2*-0&iaF$CNGa5g<pnTDDV_D@S%6C0t-(BW6A$F@gA>BQtUy5?9d8CZFb)7y
zj(1^Gwo}*`-YG<n%ty9j4(wgt@omC2hY7GjxA_(F^*FrbHWC*za7JtaxtLGT-w*M)
z>=Sb^lnhD-Q>tUZpA{R+z+Jjwfat3P9Lw@(%<Nn)jj%{iLq4@Gfnx{EcNG*V1GNI0
z<Ejnx;xvO*^WIvc>;|qbp&E&T8R5!^AJt8z6p~i-B|T2p&4jBgkcyy&t5675MQC>_
zidAtZI~eULcV-cuR=FSjy|@2s#w``QQ6*S8US=m<2N<7wEjP{O&Ct5a5iSWy4RWk2
zkath#N>bBqY>7$9&Wk9Exix(u#DvXEgt`_Opq<n)y)-#@wt0G~!;OpJEX6dmWjKy*
zDJdGD6ln?2Op0a>ym4-(-w^xCeFVE}LOrpZ8n-fxX+nLm+)9Hi8f@xgete2hpf^Fk
zlqp`Aq29VI>S;DAz~0giml6|c27x<6GqaWfxm=iBEr?wCB_<iWTH5RqN(>aUTIlJW
z&05X4)xIpZj*1Wh!P*e?c^0q4zHNd%QJ9lq-$qAZ@{n(%$Y-lBX2^FgjC|&`1lT)(
zUn!-2<p)|+?m+a)wRt7KIuO5f%cU}wb+lP_$X_Xnb--gQGgV+lux>E~i^_ol!MY~E
zs|{WWd>3~tWbs-Cc~=|qG?J%4?}DIbUf2xuUJ;-t$D9CqPv5H~Ny+Zt#-K;(LB!Iu
zbS1rdctA|GEoAKKfywCbynOolvRpX4lE8y&-1sS@RHAc@8$a3bk->AV4^OttY6i~D
zg$-4h2ofN=K~43;fxFf>cx*`+kCFv9*x9ewk&{v328joc=OfGr(Jvs&j7z}+8Tz=r
zQg)<7s*fS1(b1H_)Ype8Z84a^b6Y^^Cn`q?=-i?;fNc3#+gNY0b5+ZVltj2SA_CQO
zmJ#850mc*8vjup*V~WcswNh)}4YWqL&}CX16cH>YqkMwi2H*)~GSxaT!iM0P5}N^p
zP2O05441nC*c{Iy3aH!}XpH2TQe$@*o3)0UWqP|WKyUGQrJ%QaeKw2NaJ0F6j~8jx
z3{#?VkB8LcB)ANbA3BJfb1eVBNUTFGrNVyT86q`vF4NZo>M1#MP*3@Qhkz9BN_9Qp
z{2~Y2W%~Mw=N$wjN>P3q9LMxXJ0gs#N18T(s1nqpKBbPXsA)6m5oZ*Iv=W9#oKfTm
zz6^v%eGpEn<rECR3{G2;LP{<D!nH)+A&_b57dVn|C@D}H8p1>k&@#mkCn`lCB?Lpz
zlG8MfQqU9r_7t$nw|~Mqs|SZcz4~t;v5oJT?%pa`b99ROH|VGHZ??$D{~Og$kjwo)
zm_79luu^OOMH_!@KPs2Nw|xGBo-J4DN@D)Sw4~LcdDb^oNrQn}`5zd|^$ad@{lhf!
zRm!8@n+(}2;I;pD;C{H*12(wncbm3lt++q7mr>uhRE?)7h15z@nyWN#Xw^wUw2FgQ
zM{{$gxrhS{|D7|=TIfF6X;w#@UD-h)idzmkj>*oNu^1Il5Qu3auy%wQ;aC5QQq)La
zQNqUqnCWR;L?JMVj0H`NwKYY|>{DtRgZ=hQbZ4fyNfB+lLrx*+ZlZrs$u1mFTAKjf
zuG3EdF;g5X!Zf2H13_sF^k6KPVGJBOK37lEBJ>ocV}hQhP~e=Y+UZ5iQ~i0p)R|Ez
zOyL>euYn^o7-mIy$RzC(fSBRQdnRttLt_TaWgl5Pg~<%WBr_6ZhRM7D(>NWUm_z9e
zWg5!7W^Pbkq^G}Su+OoyRR{7p3VAwOVg|Wez(`Ze7eABC#mg*|2`W){4Z31^v$-<d
zUG!Sj-c?e-yFkPs>A9GJ|5Aj#M-3DK{uhHnEoqEO0=yXbdTNYP2L1~c0PTB~6!b5k
z&1XuGX0X2&FnJTzZv@m|4f=>V#;C;o)c|*DCQpX@D`xahI`!vQG))kSxMtul3IRV5
zqu+&r$0rO?3H-v~oTn$eWY90b@GgTAh5iD)B9rZ2nSsB&aL}C<S0KRBfB=L=DhaT}
zEgv3&S?a@oI@w1NU<o?@v(J04h}z1b$syqH8Jzi~VJaEm;lpFZ{E!TP5A*zA6C@P$
z9%}p9fXEDdzkpz`cQVW6<A!fEI^-J|J~i4S1Kx+P*dL}JDd>GP(ifv5Gw@eMIR1SZ
zL%@H9Pui)?QHlNv9~?vPDz3n>m25sn!M_5Xe(&69|E&PKkFQb+xW5_LJz<YZ<ljt?
z51>f@4fFTUI->(`K=+CM>>M4)`DG#BmyiX#IX)+7a)*#(0lv<piwtrOPG22z6$)|=
zTz(__%Q}b$1sM71mkR_Ypa*bJ9~ji}@<wfBs0SG8U#(3F^#FA5XCogLP{189F`W;w
zXkNn#mDq=PT-QTqEkpe~>0h@}Da=EpjC1noZf3Bri-7&8hq*Q=;pNz&68E)%qtE%;
z3>oxm&^$9&HO+8(FQD9Z5_G@g!B@{@j`bZkPV%cfWC*>3ad(z*l##xJV+QGMYBS(J
z3OJGDk9QG}|1j{(wAm=Z|A4^H`HB@8@*hCDEsnfWxPJi7S#~kk4E;?Z=!awRgY7o@
z1F__UiDDLZgS!>V+?CAQ;BE!}Z2JvZ%SrELQsmm872GuCHRILx!gZXZ32cE~TL^yI
z;FZ{K@$xP4{X;V3w;=LqmxV%pi&pW(z{m{!&jP$kJUlDl{)v9P2{kUIa4ny>YccvF
zh))B0VSV9GusfhrBmBfaJTJX>Z$ho-{4Y|}UfQZ2erE^a&fhItSN7#MsqJ)dvd#Y=
zd*qDi!vV_?c-pm`U3a2L5QfkGqfx<+%X~R8JITpr%<k;maEPKIDj>8b*<ZhcQE8!?
zdP}*<cxD2x??ZKUb#*h&)5H4yL0u*7<neiU@!S39uYuD_J_E~F-r_-BHXUoQ`P68|
zUNm<{p5rPNCx1BUbxF%HU1~eMpZ+v()hhP7u{ZMkwHJR~X;oa=efs+S?%bbv%3pZd
zg}>6Pto~=$?ahXrdE(g1Rj9n43LO>BydZgcP~?ppjeZz=n{PDOS?dnNVRqT!2A9{)
z=}K1Z3Z3V~8^)ejt4MdSh~~9h=?!DoS4<fiNaV(eA51s*u$(Xco6l{>PXEEPAG4p?
z=gNC^qu3AB?q&@;z1z))^5Wnsc9pli(qy;9!&Wr;=I}gpoL;JW?~dXyGtwiCnD3eQ
z(s3H!(!2gtuJT8x*l19it*IB-WA9}(&AzqkWM9JW2N&^ld&TVH`tsl3?{|xz&yF?P
z49M1Gq3rAQlJwI~paBUS4Q)WDY0??Z!@y%3+5WnHmHo^<vqXw!S~)ZQ0J779>~OHr
zu3DI@c1~*_*KA`JW{ic9wq{}0Iytrc;9`2SF>hRuv^^WMXXgZmpOFWdYh&ivC~0>c
zOp)o1)?=siZT8I`S+gpsH~2|Cn<=isAW<i!bQcPWTx|dZ!wZ-QcOp4=Or;SN1XXV6
zhd&ZJ!ZY9)%zzwrw68Jd%i8<$)N43~jCn$1vfSrk#+o}dIPpy|TReiauPG+S@g)>1
zK(ydI@e19)Crc4NM9dPU2OmtT=}IG5VX)pHA3b?acmvCZ(sdKl)C|nuW^lBp8RV%g
zD9PtwIl`kxJDQ`JJGHbef$qV~y@0H>g~j*+A46$!gPa6tvgSaeEd_Xf!wZHGA3_Fh
zw3!eKxT7MNZ70IhoUB5KAU~Z<2pl*|EZnM*(QcN4rz2Ry#*m{5XtbMH<R)H?u+ktA
zJRjj|HNjIs)-Z+qD3KonHrkI8Oh1{Si@EP6kgFA*5lrZ4Pb+)|f|m<x!3<Q%jkdJL
z!|ploL#*_9$7dkXa^xM)*v|>}cs}r0Gx4ImeBz0e_Cm@uP0ib;x8!&4M~kTU=*G%-
z=QqpEl{*2OFTm>FQ#u_$hu2uAlzM;?yV)%fD@i%K?NTJBo0oh;l`B)q#}zg-H=+D}
z9=<>}u7T&mU6WFFuCd3G+KIze1o^pvkv+HzD4R9=d}M9eVClmq9$obcnfQ)PVH=4j
zFF;A%0>Q;xN>j*gvCMBCDs<+*g`dp!paB4FfX(|AqlC6{2PQC6TY!2hckoj&j7HkZ
zpRkN!ywEZ~_{4hRx$6g3D^(3l+RZ%-%@E48%ma`E7~KsD+aq75s_8&UJfTj^od8N^
zh|8Fk=#<RgU@#lk&6LP5bONYe%u-Un!E|O?V^SLY&FZpJ$+TnL<nLH(HHB=uy7>Y;
z7ykJS3LCa@eK_|BO`G7Jbw$lj=d&?VFf-47P~fo5-AZt@sR{Oka)%CqCo~0{TYD9F
zce42^m4Y`4nm)L%caVZN`<viqWz}P%;{n{PZ0(iM&Ruf`cJ5d~K^vP(<wUz7%>}r9
z$qNozFF+>2iZe)5QUZ7TSg}DnijWQ!>%<e~E0!pUN_+)XMXa+yl++rKVx88Zgg*E}
zmL%%_1ItxO2(%iYh_R_piL}6#ilNy~NwDkGynv}ZZSl)feRU<PPpwO2gz)MFf|YeG
zl9G&jtB;h9%sPS6LRxRU>6=pG2V1U%U<x)1cqOB>YbXplWb&-qGN51qlT7tGh!R0^
zWo0Q(h}aeHpk)tcK-{!53WE(iW%c9m>t(n7_`R_vo4?GdAjiWG>r+#J+57-IY8A*L
z%YFk=e#IsZ^*H80@K$ZCP#OVd!?dwNNko{0Y1@O6K!#xDwg)AmFdwE(0z#sF-T}DZ
zqtwP<8++q!KLMLYUmF~KhmBL&=<A#pRH3z}0qgLAY3bbrtb@OzcxVXAn03#~?5ky|
zk?OKZ<r<zQOkMD$pIq@SgVZ~7U>(&m8m%6i*5Sa3304n;mFxb?U|m$b?Y=KW5Mp{g
zt`WOr3!Y-@s_Iqz-I^M3rMEFOQ`a@f9d#Hqy_*{Jv^ImL)~^$0F+#p`<xUBZ+X|8G
za0TY+-O59=GB~G7HtJiEt2&$Vs_>BRSW>4TGYVKxTFw3wgZ9{qH^dr^>+H`#5Uuo4
z#m$9nM{mf;?71}*ZfT@ymR$CHp)F-iQ-+H!%a8YRWw>5ySZEe=!3)+h`)W0qaJ_(K
z?%{ZijMM1M)ky9vhDK_{Uy_$JXH3LKU`>+i!O4(~&x>pq85*uJAJ_3gUK6V^x+ch<
zs*%z1>IkrH!$u?K@rf0WB%7FdKoeW*Ey#FH>fx0x?KEB!KCkkl942NHjM<^(BV#tL
zA=ziskVb3@oZ~4u!C~Sx1#;L?b4f<*wT?yTVdmDjz4E!09^p5Ed&L6n&?1##^J^%=
z3Z=5oFT%L-<pWiP-sY8YdaGeTW{npO)EnI9-!-^Qtlp4<wQLhnhHO?tRk3-L8n77_
zS-TdhiPj9DRlYeX!!_sNI#mGZVei|5CRlR-R@v^V%*mnx)ov#N2(GU>M+>e625jFN
zGyz+P#^T8peozasw93(l1>l-UUm2UY1xTQk9DkBw3(t=2Q0!>nLVl=e?OGGE5b9Hu
zoUW2Fi)snAw9e6pML?((=QI<y2;f$7R7^%~d3I|1vPZ+V1WNvr$<4%VDH)<CXSSFL
z?o<u#O1v=1nUKW@vXa-1Wp<JZWLg6T*<#SXp%!+DWVEu@O9_CGdV@oTQPqU8_$@V*
z3M+Yc?Nk#(g_OLduX4x;u4*E9{2euZD}Y~a-^;{r1@I%@>6Zaq*95TeB{hO;ARQJ;
zF%!o%&@?(a6e#2Oj_^BGh+P;LN--0&cc2lXAJ&vP`Kb5&LUF7AgO9FIjhVoG)?wth
zX40H|3dRj<4*ahUD|#ifHS#|?dMJYaJ*EYC+Rd43bD}U5hG+j#5rg;<ylma^Qg5x>
zFPR8IQv<Oic=`7WtfH-#-R(NZj5EkYJkLWW1YUv%-CFutO}eV9YSNNV<B{`9UivL;
z%57wG7Er}PT3M1<vS`*-u8r;Xt~L9UOEAiQr06N%=KBv1Y4bNc_{Y-Lr_%Ph(rIf}
zc{PzGe4+G=Ml@!g+?Q_sK5pUE-Jh@PAK`F}%btj-C6<bb$m-=^DX@Z#vMZ9v-)qQ5
zE>b-svXd}zR=V8W+N8P|Rk+0HJrRmlmB30YXe9rRzB_8xoS1K<x3JJ7Muc<Wp{dwV
z-*m<1{MnZ2W*L_o>86p&x(M4NG0MRQ1=r}~8~bL5ur>SMrtQa8!@-8JjD?3o;>Dtb
zT0V``MV-@=xVhZ9o+_!W=}g&`UYcVl5&N0MjQGsEzm3V6vf4}yReXP$d^8)VL)BdP
zqa>b+fXTTgUZ_o`l;2+l<t0k3NE?-2tc!|S-)hq>W+zeFxD05Zi%Z!_l+Z@TCDBY9
znYvIVZDcxPMYWL`(vayQgPe5N)5fMI!jNcW6G?5RJ*y_Th_tz+tf3-`X)|)HaU@Bg
z%{5-B(|{yggTYfoNW*xU)0oycNhH<D>olj{TWufciwqCxG#LEX4EYA@^XFNq5US#{
zW%5@LH%{uuZ#Ue^Ed}ydD<?S<fR~O%)#QS}oZ&7EHQpg<y%>;YI=&BybHxS{S7b*R
zToDgpa76-y!3~osAnqtr!tm0hW<v4~VGM?M$Xg)1<46SrToVR){h|D(4+|`wdZ2(s
z^aBBYc#eW09tSuW;&Da;A%2WuAV|BPP?@y?GOI(%gJ;4Mn7+M~k1k_xzP9-(%U)mD
z<oM#^)fd>ig}3X-1YcQv`2w_9uepHz1p!$ivgR4{1bEuDmRoPzAQXVLe-vL6KPG9k
zW$L1CZMCg0h}g#t3I+-|Y5)BICyN@THDua@5!mNDHy;k5AFKIlx6*T!tGmaC=@b6>
zeTfqF%CbiCPDGKwQUP*{(JVus&=3*##9HDKR1jiDV4g^Nva$v331vN00VOTbP#vk=
zH#I_+xP0B!HOQ4Vg896YipyxE`4$+`5+In3NW-`U#5fCw<KD0`mT?<OC&24aCS7-}
z2!_;_TmcEpLZJ*=p<lx(re!$g3MiN&m9Z8~iH?=QR9>30(7{zTre-5ZOhdT|B{gW$
z4j9xM<5jhEWE4HP)r@znveINvKHtLam*rw=J_^Z8)Z$X|IK4OJut*xvvoZRQ1{my5
z1_mNet$MowXYP$<uL4s8##fQq8XCf`LJPteNObhsv)>QNzUlOy!hMe)5<cthL*nOs
z{ayJ(f})YaEg)5L0fVv=BV@X+DHz1-fy5k{qNLn7bP2kIB?9ZQje)Qx8kvP{^4*~a
zcp$Mw%tl7=BBU>57f6C}7g!0tRN8h_6J%M^3hImHM-RC~60-(^K-~!nfjKE$c-9o!
zU|J*l7d_c{d<t?;^afGWRLpy{1L<o&agLj3V?%ab$4>efLbEWoy4L)~Q+(1pPAgCO
zq9#Bq>#Q&EH$T3B^{C`b1p%ki(-R2EsRI-xWf0&h@dF^QK$0DtHgknFMja!Z1yGTr
z2J8I{D;x!^>o14DK0YDhw<m<PV1e!QX7>AO|Fyk;L}_X6stFe=tt1!ejUDW)SFd8<
zyTUt~Gt(p)WOFyV`9X2|kBXDB6~!Hvnqazkj^X(a2$!85uAKq)5qR3QT-$cyxDs9G
zk78_dd4ybM=#ysBgwAyLi<SX}xZ_)Fk%a#Gk!2vZaY<FidC5wMwYRtGqAFR2&1aXh
z*B>)+nf0@~?~Cy-@854zW@o#|=I<i^+<)``y5+ZjPp`+!vXV4jvCvzkanGHuc_c5H
zIBckXy?z&?#7i^Iyl8hZ>9hZ_`Rw&;6S%YXgeQmgSpUZ7!8)@89uY2ge8E$~^+P{n
zJWRxnG)8i;a4X<3{iVP0)f~uC6Mr*}gf&cg#?x2M#9PeP^8X?u0oW0LBMlgdm}MgM
zqs?Jhqr6OnVvw6hUZ{-bPJ(##Z1oD0z4_wF-<u$_7yy#bQ3+(gTs2qHFBC}Rg?!x>
z!!9tkQ5nTXqgWRYe&#Rzz!$s2{j5??@UxHx(s8mlJP%|a70GtFhXGJ}lJ5hf&z!|B
z;Z`p<O}rH>3ATGz$~+W8eiw5twrSKUkgMeE0oGUmHy^r4JzxB@{LNS5;CRb;8?CeR
z(Hg|HMyn`%#G=?a$}~&@h17UQEwL*1<0COfImDfp@~ATW59Go!-Gu;cK$5>701{%v
zlv`H<t0&{ZkDhocuP$N~KubLFbU?G5RUBo4dFf^w%7p?wZlK1=8HhyLPY^@hm;5i?
z)#ZF>T@=2Ue}*5E|HWhu^#bgep&BBWPwaq^8o=L^VzE;TwR5u@dZXvXAjp{evW*4L
zR{#+|^C+8xuAy>?S~iA@c%d%-7&f_L=i-kh($j9Dak}{|66K7=TJfnAg9k75z5N>d
z86>$)oqPEM#c(>;#W<O?@{1QK=YR7c;c3D4JieOz{Pp%Fy#LN**rnWFg~>>!0pWYW
z^-GVx=%9BBTKUQpz{_Lum8ZhFN#jsmt`f~SO}*W<^C&+&5SWvc!}e~emb)TNxp(U4
zN6LbchKa0t!~sg(#(m(gcrid{nubZ&aoHQ0L{~u^9d1>U+vBAVOi^*Ed#Qe^-;LmF
zzT9q5;PzuE+^hWZ{5KtNy(n?mhikW(a0OSL@-kkh6Ru*U%2kxBXE0?K42~z4Spzlf
zUZmU$+e8$Izf<_6pmGau{ws~QNjazh4rQ9T8n<s=W@07)F4a5r^Ho)3k~auc`6L^O
zcq;$li8vj}X^+{l#e!HrdJ*@~i%daQJ5DlJdW(1(eccA*Eb}+f)3tRGZUg42ze-%_
z^5z)svRHw<S%+A5u>l*Xib<sBIvKJ<unSXtFB+b<Do(<(5xH|YwRUpA_A6RT5%qYN
zUEytBS)Ft57Q|Ld=ia`~ZJIT7ZqKX<L*;kLmWwURL*@9)x<bn_62L0%G$b<Bl_%^_
zi;<F~^?)ZR<uVGx4?Kfq?I|=C2YG%Gcu>9tGIhDI)LP5R>SDpG%eT*4T`Wq*S9PW-
z%~;rsUrffFKXTb7pH(>O_q%GTtrR%z$a-UJF32abvaI2Afu5wC(enOJZJ}(FfKzf>
zZ$i+~Xe@%9O9EHDnIO<yQ6$xOp2%$1R8cw`!8B8XD-2avu=ZCZPxyjfKC4YSf#Uxp
zis6HwUFI9eB#v7W$4GMAZI=OYuD+5;EL*b7dH#%GCE&%Uk!eP7FO%J2@0!u{lr|(u
zV*Vl3g9aCa)!dP2Ol}7Ad?WD~T@5Ch6YFS<yTNStG&Zv{z*L<#?9)gtPL-0X$8--H
zj};Z6ek+%(Csdd^s$37~s;C~iin_=Viw)qjs+v|$*V@WxD9q|H(o%*;SS-sA)=0^0
zMQS&X-8mY6O(|o{BH$o=B(=3VAuz`?!6FXX6alqPJ~lCEijd?|^>9RzL{uGWf09HI
z6THf4<xVkWrmDR#Nl8L2ymdy0<s?*_s3nM`<b@RJM&E+9yim1#%?}!pw4_w4=v)|9
zl2Vn-_$$#W8M!ky`7ta<P-ji&WH8N^N~5!XOPVI*s6!GY<GfOp=<E+Gd8KsSg%a^Z
z67oi1Fzh2W6TFktv1x;+nP*3}h|cJ+MRru*((NHNEBQldxeZ2#h5Vt|1-VPrsK@TS
z$x>ON()rk(H(AyF`V%tz8Lo;q>)I3>+ilhJNxLS+#@T<wYG-?BhDY{YwLOrQihkps
z$C#hK0gqvvFDL?23jv|uV$sbl1Vk~zQeavLh~$o>L)$_?6mzr=T!9bqEJ#wcl{ZB3
zK%&qV#1O>~5{0%>g(y1D@#-!rY1hH!_;WIdgFXyhjSgK}cSvcy^l+wI3AN$@m)61R
z!J(W*Y1j>JsV%{$FY~4v<jMlSifA|00DRXbMWePgfhb%og|TOV7zS7dQ_lbqjA$9&
z*fT&p6Z{zt^RqgL<ce}o1of;AV!9zPA)cZ^G@Yk=<>r-i?;6s5`SuB9M;o4yp--S3
z7f4;&cd==|7J}_Eqq`&}6>U!n*?f(TNNl$VF+GyRXwRHL6tCzEX*$aQF}&j=(R7vp
zqWFWSFrH-qIQm^i`q9-ZvDg2UKtBpT;X=pxv7Fb%c_00Zv^gr;#d{yyycf-G>Et}F
zbsuzT_CpC!vBcn0tX^9^PZ-g*KPDBO?FY0|hP5uVo#lt!9|b+uPL=5z5)5>%AhcPI
z?XS)(LsG|8+JER)z)8ntjzzHF8g*W9sS==K@Db7wm4ZcQhY`sRrADWn9WWgOayJuL
z3>WCEYd#&{lyx7_o@B%aJ?USP2EzgTCJ{eK1gP`(O*B7AbEVe-PS#JF7Tg*CCN;lE
zYA}-qYSLs9hn7j4%05^nmuS}x=X2g7FubDXkX}(6uh$>1sCnyk^%XT-V(YW|Mt!@)
zhRAC}(>tR;Mnj&r>$4M=layfM$8HWbz;--G^|#derMF1iD5$@s)@P+Hz;<`;bz0EX
zn~X|SdZY!p^faTLvSsH*i>k^il9nyLzQk0wEJ@Q;dLq+qnpWm%Iv2jxcc7T2X@x%>
zT;Ggur(}(`ORd0bN5|WJRf}obIC^8Sy7Sad#3PpNWAW&gs9Jp^wj+R*YC~xgk3F5v
z5KrW<(J>+Z#v)eyQ-}DBL_Amz#`<aeW*D^XE%)$Q{<UM=3*`-T&M{EsU5({G@q;<k
zrHBEp4|v+`TU&Rc$`W4ZAK6?K9>rkBy)tfhOlC6k(yPVRbiyr7W0LdhPj!PyP(&2R
zBWvx400LcA-&fUD)j;s=XuNtDi$P)x-z{Q4-}U?in=ff3s7~L6yux1D^$orGHgfwI
zp_oS=4v5Di4WYZ}nTAurDGA2H(J?Z<oN?a->X105;T#j+AB~l?ZZf&Q>;EP{{~2LD
zc@I%1PD4+mM9{f8A&e*TJ_p@kO}ra-?=fBfHieXJ4x%6+t}D;{2Vb`NwnI1_hJC(l
zDF!_zLZ1*(G++Chx7PMnQEv?y_2=!yU=SfV>Wpaum%dX$+KOXN1TmE}+Kiz0gK$Q|
z)<zS3iy@kn8-5T!rESKcp=%ma&ODeFkI@`TL>ka`yT))~(^ddX(4cpp&^u0B8&^;<
z9ub0a@i?W+?P%%_B0mbX79g>f+1yAFx?u|{SU|7nqNQ&61f#my3E?DgqBPtnC3=58
zZx@=MkCf91r*r1PeQouQp9h$=j<kz$O9th+f93r8{rXohy~l<ZaVk?4x5%8tuuqKS
znZ?EwHitpioL%_>u59EBSDw2}_}vBbVc#99T|Ul16Kp0v^Rk<b5p2rIQ4OlyhYg#h
zg1W=&4!*rX@YlhPj<7oe@Va?c@VB`mm%|7BiTwTCHNRmK&PSfUqMrVPdiAh?*H}9Y
zm$et6Avl*ULvU8mGTV(7+H8%2*l(fT_8liow9N2C1j3lYreJf@#TBN3HC<e=Z*NxY
z3dv2<^CI7;o<Q1=M}bU!L_}Q4vz0j6<GS_&E@HOMnpLP|K6Tw~T$hLgF8{<I<v|Zf
ztbZq2ZFIC}tpAtA`tQ70?nZ61P((_oHG(6lTamC<@vEf1fLX>gCZX$&2jf+FBxvHj
z7ZaYaaEa6b#WTVwUWAzNWe38;=;QX#s?LKMn(7yDqU`u!Owq9VUdDs&GdWa$#N8Vv
zrt%?C#>Ojymc-^X0V45NsgfK0=|Z_VG>j_dQtzC=oHu;H{MixrW&SlO=MhJmD|g>%
zl8_~JAr=zsXg}fa9-}TW<3&Nte2UfGGB^IhpFC71Zk+}3A8@l(Jq3`qGqt=lN-aM=
zQwuW6a*K76+%jq(z3PJ1AjL$7rI?qCrs&Y1sz@}}`QbTNxbCEKG=eK<#DQ5yx8bi>
zmUYI1+}n<1M21=cFl0l=c>QX(TnxJ^R%RcuVpo%CEx=PV;ywQ#=2UNI%33u^Sz6~y
z%Ci4l${M$n<HmVQ9G16Mm(SCo;Z>2mW@p3Lg*70R&uWX{x>TL6G0Xf$jltb{X4w^P
z6SIxy*3)5g%fD214h^M>8ReZDnKQz*W|5<rINMasgLAb5QooKj+M3e-AQzNN$=fN@
z-E1$633kkJaXg4i@MnkdMbiF;%{pnrHY{z}j8ZpwpC0O-z(X_TrAiMG$t~Gr^cOU2
z??pndRKwPB^!dMho{mq5(ITS<WJl{%*^yM$4tr-+4o|jRpOsZ*a)PSdag1Th$W<3e
zgTm||QkWt7!pkM-;H7$}v^XCfKu!<m!yl3>T=7O_Ed<~|MMR1%%u}CcFNz_)m2h*S
zw(7X!%sz#`)D#ZM$NYGClYRBHSAk4j^`sk++J-)TV>6#h1@cpiOqP;UCc;`#J|lt!
zy%`m+l!p18`^eS{WY-+jBLe%BBmzev#R9CWJ8;Xj^#)obn6V{js<^#C;(E$K-ScaY
z(K3@1pn3gKaTMc~{1|c0yxOC3-ZPC!?O{et=`&8)G9)79wDveNrvuLI^H*_THya2^
z3!J^E4w2$WYt0Fyx-8q(hiMnJs*F{4u=d6EhXdA7Hd?7XV))vx+57(^1ehhzG4UCx
z&7PL~ED?k^m5~jN_?C=^(#p5*6}35<t1ojL4O{9EijSFwoV=b`XdXZ$eBUkDkaf6H
zvg&(AO0q5MoBWyd9gd$6c2P$aKPjYw5|d@d)v#YB{_XOS$xb@BAqKO6A;nL68HOEt
zYQq@qXg#3a2%$s?LoOi{)?WT)7V6xGbLhL|U9KS;^J+`fpuBJE;bPt>7JPtgs*Xlw
z&Af*I!Du&?{ry~m?>FfLHp{3)=cdx0Qh%YoCNB`FHN&gb#jBkguO;!y=BNNyZw6Pd
z3s*lkTyvVnlozlXO+z_@Dpe_{sH0ZKUtt<&hdJOx6kTdIjo|$-&2z(43ojlPaCV!9
z?tYw3%{7R*y?iQzH>V4d`l5H0@AKcevcd7nV2PF22Q)|%5e1)_{7(t*%~=xrBySmN
zFEn?^-&M%nCJxyCEYSYwuC2RB!AR_4!~Kw4pVa53=fkqk9H^~2&eeQ7sTzF|2=j{0
z(xp7gRs3~Y6<!eA;32_?@4jgCCD+ol)iMgLmcWpJ$_fZ>-Y|C8Idf}voLu<E>>%X|
zRHPsDnJP4C+mmE=tn|-ESi3}f$BH(ud6dSx#LkZvJCXm=uuCjGR&4J^K9(c?F2P~_
zCyX$@vc?ss5p`iAl|TLiwY;*augU&au%AxqMwE-A1%L7Cmbs^sx?yfw>ow3}{=B`d
z_UIqcS*>!l=eyDiR<=*qk%3X1?OOqNO1T>$_jau4%}l*z^l2rp&Hf)uw^FEvWs?ke
z+QnL3SK>MpUH2c+($e-31Rd^G$5FiFotLc89<XC+YZ_GM*WV;X0cqNkf{PbdVaVCp
z=VPCfbja=X+4ajczvgE}ueiCN^ncNxKgOh6tWpQwa^~kOPI;WpEq6gzQy{O5<^+-g
zIs=dVMeyr;YUPwNAO&a3kZ&1y&{&|HZ!BE%L5~D|@l`xsawwNL=PREEPZKXGi2J<E
zI0QT+JbQw)@F&?sJ#4<}4EztwqC+qn7q9{GN8+n9nj|ezryEoYk7_v*_6qo8799uN
z!Gi}9d$P<EI2_j1!1{AYfyH6*iFaqhXv_!MGK~%g9~d~iBT3(>^gJB+%oO+*a-c^5
z9vVjZf@RD6aM+O{?2XWZ^l(^$6c3;HqLk=mT(osDZ3g{J)i0^`8KbMiQA0xy|9p&(
zQNEEuB3lyoJY$zxc7&7yLy0~P>des1SCog3hr=eOdU2l?basUJE)4k&k}P~W9JVlo
z9j6hz9R&MwrP^-=WKOw=;J_tT_eMPS*?hTxlowuHkTgr7-D+Q~hDFX->*ZY?V`;$4
zDJx3Co~R>f=nm%6j%CY#0`dq+4s30!hqmQNQ&y+6!JyzREgWMPZfRqYMPdqECD6`H
zFb7WJNVrC=uU>0s`TI)CDq*K_n&mZ18b)6H%DrJ1z0|hiRLn#~cCUhbWU#^dObo}>
z>mQm*=e8yaI~gfLVUvnN8w|-2klc%MEPSsc6q>Fm?J{M?CE!zkIQZ|^>)(sJd*Xx{
z124?d7hv2uXW2sjB7Ti8F5&Xqc+?kFn6oS-3mUS_cE>W|M$Sz9aNryrSuAjftB3`6
zkj(z2$r2D~u8RCv;aP6!qVH@7GrCOpj#;~3j9SU(vG7OFr^UbEr^UZKExvOHi}<8F
zaL=+NOHaLpwD^iR^dccyFHqL~kaCKwd%5F|{C#=sEGu3Q<BJ9k>;<Ay6mLI1Rbxe^
z3%s=}-ao(F$MjsMlriPS9w{5Rd!zoU=SExGquiD;WB1nqt-ZgqZOa;}FUM)V<gK>9
zwz^AT&umK~>i((1Wif}c9e8Aozk`TPD>00A#=_KoTIqmwQ*5i;(tvEL#5JoDmjv?X
z_h~Eyq?ycinYfK*(w!~1JA~<SE}ymx<7U!sr=QLf7%&<>0f*?*_@W#r4l%mit4G>S
zKCe17?b6TE4c*<jkjY4TLv5TA-BgD6rRCRQg`z1y8?17rd#3)X=Xbn+jJVl>x{KnE
zP{e<#<A-K?WyG`{vYt0-%7=Bm&CegYzv=g<p8JisG!X}ScbdIH)E#7Rn&T8-Ig?cm
zqq3qZx}yc;>$lMrUXwL&;%%rym%5%m^+sg7@a_wkFgSH=R7R`*j^D`FwLf2Wzfrne
z?6eE3raWzUUQ4xNf|2zqSqK-otZE+9Wb`a-HX!f!6ND(#wG+#rom2~LyM|(0Mxwhl
z2;!vGw#^zAYKo~w>Kci79TTlo*JJFn*}Z--;NqCIUX<7LtXwlR1S>t3XXHWmhrCuX
za$R6VrWQcY;)`W4kTSSGHrws4qMNkG#%m8wURz4h3?cKTgRMr_yLigpAWkFop*^+k
zA3U{|bFGG`<KdBO#a(AVFbEn>+;vFk<ll~1UEVteJ-4H-pcsu0Yq!qSz+IT`p>x)6
zJWjpFY5-iEjIXD%-5SCPxr-OOPr<2+xr>iEsu0_yfrsl+IPYn@luxR!U8Osa=LPA8
zoipUNOV|Gw>}W{4$HcEh`g{_s#tMvbd|x7Pd0u<3=j?X!Bfk*qk+0iBd2?I+YOEf2
zbKU5eT{k+!mp|V-J~m!9I*pf&+8V<ZvVYLwv=#U!KMw=f<t#>;d(~%Eu_LWMW97L=
zD%xW^F{aouUni!@NfU2Pjnp2YBie+R8dCYF7ZW-mmJY&SS|*_(lkL}WCS)S~)l$<C
zqnVT<Lw7aBMC-E1&}Ex<GbRoLLpq4SXc>WN670X_!;zX9l4^9FmeSnReF#cgumqpn
znCV56;3*0PBc2+7+ytOe(lj8<1O%ft8XRtd(_Eq&loum5n6mi{^gl(hGO_9h$pU!V
zrITAzgD?<<$A3hCaCvMyR(UA4irVpIC(^aWLO`-GQ-8e))M@Kw2J1^^19Q%IlHI^<
zJc-+-Vh~eI6XmJ-eKL9ykBbN#wUcfoXcJU*CMlEan8qP6euWb2EFIPBra(!((w*)C
z5pEMdSHRzzk}#wasNAAdK~g4Nark77pWy=bbUvJJhjUSD=mu5xj;k+G)W5Q{zoZaE
zwO@%^=@5*W0wI$cJXpkgQGq1DoN2HyFl&x*4)j!8HZ)vov!lS`MJxXl+xCv+d8X(L
z563?8kfK0nMc&{*r<1{9R#zQF{k(sdeKxlnnW(p3PnXWCxY>IA8o0>wGId%^od-<K
z|FI9QqJrEzy<F-&2WHKU$-;Q_ecv;GM*90>inK0ugR6#yfj#K1i&-%$!qrS)li|Di
zeRlkrF^r5~AL0WIdv0y%gaNq^c-p;NU3a2L5Iy^k<V)aD6Eks6lFcN}&g{JOL2Z=@
z0)aLk^XnH{P+DlHYH?o-N$9%X>grq7MMIvZ4{s0bfnBA;^zr*_^vnD4ZAy&vGqhOr
zLPI<DlGG2^R=f)rY?R;Vzx!YA=-usfG9sE5C((jzy+sn~=5y?Yzcn%$56NGof6MyC
zEE}cehpUIT`zFh#$5`^f#wKw`*_A)vF{%x6AWF8Bd4n^@rvq}f3Bf{2nrt|08q&mH
zq?w%|alRD4Y4+B8q2zr-6G|3=w@c|@?3A`3zSeZ^Y_g$2Oq0Rb#tgP!=;wQsEX!f-
z{B;R`<VbBl(hoBis11#>>tbj+>~yzPakrVqfzQY)N{GLWgTjUlu%YR*&zK$z>DjEa
zT{4eWe!3~lxDYeioxh^Y-_mQkGD7-Zj3w=XXWnOiHe-)%+U~DHnHAO=%f33veCKUb
zmGSx_3R8B50V60#r)0ZhDi*8?1yvivDh*X5^#!Y7#Xb0g50=ioHlSe^>cmUd9e3&j
z`VrFwqsyFMHflrDgLQz43}Q-O2$vH0Ae|2?Gz2rOqFCTzwt%Ci)S9~pqA=5*W#%E0
z()Bj`Ss478Wdf<qr{~P7U9rl4)wCNw$mS>iYie;pbNsZTY&}@zT9;crir&xMpn3D@
zc<#&04pL&h?jlBA77^~T^r_jOMMyo+Gz*hlP`JE0vuMUg9mkKa$@xG6tBb%K7MCEZ
zmq*i!W&D^6$>rh9Jn?X>akLAU{{!HUT-_cMy7U(waQfPWPd^IZ9{Oc;J^uIC``7LB
zcVaH0gxX8G@^%5UuZy3>@1=cdkd@+aOp^J{S%qcsMQ=UwPk!BL%ZU>|WTmlc_;z`;
z!8vVc2j2+aUhol`!NI1;;>7VvBsvw$5*5s9(#3vERWwjy>ZIBl9M%r^fF%4(KQlXI
ziRZJ_$*(;YCC;?CFhlymDxi>H%v9Xq(dcdIKVGooK{R%yliF^$I;V}6&zV_hgxcgp
zX4MEa2C98hUZ2BBb0o+{hHNeAe7EM`-6K*(ZwwM+wPn_IK0LoF!CW+0mlihTjM{K`
zQBxyzI$I4``;pca|K!&t-VKx&572}1g86(w*>`gLcYexH7`ITLb#jpV=@!MKap?lt
zOi^sQJSJ!K6@>$1q=;7cpHRFaoOg#K)eR$O)Vh<m_C?B6RtIG})Hj+i^CpS74rR*7
zcm3vL_AxP6*`Hf+PST%oOn>(~)=LJ|U=!w&<0jyleFnH#hiBQ7nQF^O8ZOzHyxJ}`
zG(Fq8nD5+K**rQc*LnD~0LgXo=$@kiyYihJ>kmGW19Dzt#ObC2)?tS<c|~Dacr5#X
zRT4xY4i&10Zg$d{YsYJ5XdLiz%|fxW@$A6<lyh|Os34AV#J?3{lyBv)c%KsG(?>j3
zt!;pSn<)fnH#NB{zvJ;>^yH8|)&=<^jk3NIiUJ)_6u3f4JG&mxVV;E61Fil;)*Y4Z
z4KNImd)9^$K{b=>OZ<Wx%<}munt}+H6c6Pbq3)xlzw&8<f?VU*TQ@s-toV31I72z?
z?-p2{zN)ny7Teg(ZeYF_OkOi9C0Kw1>ufv7a8h)%xQAT_Dn^(>$~kR~BjDcAG1AFP
z9vL4B`3A&I3TfELV1$&;k{B`i&21+=1tG&3phxuwN$zXcYv8k7TlSI98fuR!24vgr
z)IesodN8P^H6sQ^VRsWz7I_KWerFR=hQZ(%zy_ZT=>vfTXoX2&%wITZ=+<)?5JVTw
z2`>|L;^rzp_R-@*AQRb0stbABQZ=!SByn;S9l6A23qbQj78NTb7QFc(L);({Va*5`
z+8YuLP{+%lK9Ep|I$i>4X-G(5jV6P;#Revz;~~TPilqkYc*x*7)Um4Y@ZyPUs!%dn
z5Ro)1BH35bWC7d>eooNhM1&TfEVVWrwvZ)LZ5692@v#4>;NQ;(d}iGFV!vpJ^PWUK
z+PpYKdQmD+YTmRF-aHov6Y8z4DM_f?&<<Edpqd&~u>G-(Tv$i_=n4rNyRbyls#D~E
zWDw-A_Ty@)gP*7xN7y7e$n!fVxv_1Q9PEy<mUq>r$%XE;u~9DFbGt~UO~s)a*AXZr
zn~DrIyhgb4r3!APID1$>z-wmfkO#@P{5By{fDh}3MA(3j9eM0Q&%&LUJi{%}MKmP!
zrmX^##?Z=bPq%T<$00Zm@*wC?m;>vGmbbaAX?~(!s4YDFLhe>U=_2-!d-D3CY7;{b
zDG{<AtJ-AFK|RlESi-jp#~=_UZ;n;}T020E>f(Y_g{G#!c6mwEN>B@+6b*WgV^@u6
z`yek~e9X_96@~Gr<z-3!#fE&1Bt!l$y?lF626IZPu5$2&zU~X5v7p+3>Uea4Eve}J
z-nd8rek17s%1{Z?3;GpG?8FCsAv8{W*qe2UgJMud77qo&o%7m<^+v~}y;znwWd|yN
z#ReiqdXLQnL3-aV2g_yDDPQk&N@Wn>-xc7`(f$vGZ3gCPt*{>wn0{Usxn5=o=zp5`
zI|Kgu=`I_!pVYQKr=3Q-WI<DlZe#XoP4dsD@?iGTW1e;6(_lH7?$<%y1>MJ-#>k|2
z*>oO#924Z9%X*|*hwXjwAK#+w8@QYU-ywL~#a&x_qCD5WzJDaLQ4edaefnJ1cGR{r
zbHWudDo+ud5Zdwk^=}eDK>>*_;v6_u<-XS@S=q1Hlc(|5eQ1TRZ?n7K=;Ozet%p0`
z+9DF-_Lz=ozipc|_{6?32&n$R{`^0?_@SP7$POt<o-^>@Eis?`1^z4d+|u>1F=Q`?
z$DTvO9@Eo@P4O^$%(AuCl;Z7uM8bfWn2<o=-G{5;PyIji@@bj>*e3G4z_A#Y>#wY-
z`0t_Ly@q6hvjCm50NN{m-;b6{Otje0HpOJ)`iSC%FhSRD)15KfZE^Bv>;dyW*lbV(
zYzCr~Xst00*=Ns~B1N<dM3FgkvA0l2*m+09MLtzT$?Jgez+M#bxfE|YZy}x$3|o2(
zht-{@1X62lBj2GBXVzM;`}fJ$-4*sRah*^TrI?|hO+SeIyr1>E#o_@%prSgie_=;|
z$4<70_wLw>JC7(<MjO%%HKyzZi1G7o(Es)O``^v<%{H8XU@O>CH}I_&@n5N2<~;a|
z7kWSVdr~kTt`&_x;C{Q0BRu-&>EVw3VoL(Y-XMnrZB3hTU$an)(WXfv^J#&7dNo5D
zezn#F(}?)I{DOfRaA^7#QLX)o=mfKGu<rokS`3zz6ga>R1B6wbBYwEv0uHe&8X^V@
z2+7a@OJxc<^;}4AbI4h=^?)FcBP|Rlk5>8}*#N@D!4D3v$MGIX5N&}#c~fpYu@@jb
z=Igb=oV~shZ<ZDw7I-z|nMdCN_S_AVmq@e)KvE>5lLs%v%3HrJ#-HrDj2v3)jg5Cm
z$eZSbtLFv5Ct72)Nc4Y3<P#HE-u7LnmX0c=d-$W2Zs;qedsJIg9@YBpX{nY@t?x!^
zeK%6;yRlmBUWiIMKK@k8=d0yAw0COw2JV+yzJRLb+bNAL`Y=#iA4XWMJ)Z-$_2D^E
ztKVxhSIRfR8>M{HwWpX*ZGD(3_TP-`l=8iWN}G4%E~0@_!anj>N(otu)K*QXD<$OP
zY_)`bv{6g=N9}0Sc-m~0#!+Jw1Y4zq&%u}4Li0it`|yRR9lID)ym8eMQlwVH%=)(y
zLX$5?{!z>5D`#ZCca$>r339MvMvOj{GTtMicIaf@2VUSSX54I$Vn#nyY*m7&+Oj%u
zzZ6FRu|lPkQLGRtW~9zqEo0;<_9OcmtBnA!nH@Z87$<n6*s9aDr<{?fW{l>_8Mjzz
z=h2+G-a>68pAqD$ZLQvXS8*TUV~y1=YcodIQ_J`(vmaFnqs2x6idTj#(S1}pQ)NB;
zrI;u!uGZv^kl<S_rPws6l#&h1sp}}FB$1;u*jaCWh?YttL5GiAKh=)wI$|WLwsr0d
z@DfFyQa!tDY)4%`QtHs|5K-k3q5C7kAywQ^cc<7}s-8dVang6>DRJsy7hi|}*7a99
zLEp-V#VLz~SkuJrMw>()Zg>;kIIW~Q{!2Ss;(j5DtylKV(7zTscBSsQR3Et%4$Wd{
zPd*@EhXMA3z=J_FUA{s4>cayW#IENqF?Bb%J4)VMfg4i19p9(g^9{H0Pwhpz<F++p
z-~F_2vk^BZp1I;vOUD8(xPTS17}G8C``<Q<7}<6$t)FdiR>@vtkBvfGQBypfPrUmM
z$f9*#T>ue&?&Cm>Q!(tfzwB;Y#{bgfz$Nl`t-jW=!GwvcQay1j+Y~@CG?SwTB*!64
zByM3JXf2z^v?AIyB<;TD=ehTBph$oXhyY>R&Xh<_tJ(Rj=%>sM4D-M)Y7`R@@=fEZ
z3?7UOPj*p{AeJHS7c@qVZ1!dSU|S@K0VB!$tRy`lNPIH1F)^I8Vx&tDjft>0FM>F-
z+Mo#dtO&dtg9-AWg}C(S`z0*boPCc!uYY7`e|%CMB|jaf^AmyUD6<EXU`WrL7_M`s
zR+S{FpY^-BtCln!sIY3Go|yFy=+Fz0VnfI2IYwxXJ+;L9GhH{KeId7?y)xIq<-GhH
z_bqq_JO3uU&k?-|?*uPz!pj$PZ@??|a^Hklq#?QmG2g^`6JoyA^A^PMX2IJqe<SxM
z^*G*GcOzz=pXWBres~jWC+pBRp^leLZ$cffW!{21UF*9A_kJbp7UYM;DYfi}Ojw%O
zJag}%D7={rhDgGdPDh4{#W-CTxt3o==BXM?*RCGbpg2t3T~8AavxBYi=D%#=;LN@Y
zhzFH{>jYKjcmPSWPJm4gEOr6D%>Tm<g@YFJAz)|*tU)^>!yhGZh}}46;5B)Qjv;#-
z^2*#yg_uu1`vw?ujK9DzuV2qUfxCJ^zYuXsAyqz1sR3cKC>)<-fC5aXmSNydGPpwG
z8jyfI1*_J2cSCpXGDqz|aW#>{FC3!{UVsAYG4Px3LqhWjSgpk;`;!p?D6SAW?(#z7
zYFyr7K=>hISl|irS9ruXjf9}UZ7y-T;Se5qMs|HKa6UniO;+dD!D1GXd9ZZDH6(aj
zdyEGJF~=QQMH>tj&>?awo&u(6!~qfGl@CBfi!1%K1ciLYn>hxxWQR*R!W16U1;y+N
zOyD3RKmog!hs2-pTq!gvcwiBz;&>!DsyM0xjw+7hK%w#-N?MDjR26->Hau>8G6ED=
zV~s6#SN?UGU<-hCo_J($3{Yre4=tJ)U~Kl9*yI@+Ta4d1K|Ckk3^u&IO;I?+2`h1i
z9Txl`IJ`HlOz8%<ive9{%%RV^OOS{ip*XBj1?F1_S_;xTB_J`oX_SBk<$!(!3p&9L
zcHyRF1Zc03GA~d?jRi*)2aZ8er>y298WGT9)!WA_C{&&~U2BOZfkDF!l?1MtjK-kH
zVH~{O6KNvo8i(%x<HZqE2uY>4?);U9lS7luav6|acz#8T3E9y;%>)k$+`bEe@hB|b
z!yj0@p%07q2<(qXVEchhA?!1v!{UvA?Kc9p-xyfF7XpeWwt~U}`oMr!UH(%9$kSZG
z0tOTqa0gpUc=B#oK)5-(L;7uCzzA5v*Jut4$am=i18!gec>*e6K;UvXg?7q}>|g=m
zhQ8U&&Y*}qGc_zCPdyEesKX-i<k7&0a0C5J`e#@~KFa}%2)Hbg-P{g}$Wt&wBLert
z;+^%dh!g?K2)J7-o97r9(uaoxTu{rMDgcEPxrSjO;}lS^km67SFyvLY2^T}cExBY9
z`ocnrjJ>dskaNJ<47k9MJjE?6q{t`>3n@~@!a|Ciu+WeM9Fk{sg@qJJRDmH0cnF4E
zmB{8fg@%ON9g)pc3JRH|B8A0F&Uk@h#!KC>m~pmHU`%m>0TwekxCV>~xNRkW$_)}T
zO^*o+nx2V+1nmOvH%(C4ketta!Wv+o7ZVnBf7}leHFJ&+2KI0`E?(bdze5{%Y|-xZ
z0lPbygN5mFx&heaX342VXz=6Xh~W6~K_ceRW-M<A<Gd2Qa2>dD#sR;3C^gT)!d<#x
z`%m^9-DH^_-1xn{?V*qX(`p`oi}T1{gN*TKTixyDg?tTOUtY-9;DzFad?Uqt4PNb5
z#MkJ()P;miUW{8r*zCoeg^Z0}vRKI2=%t56jPd-YTFPc`cPpf9_Uf||$|i3jE2M1p
zvZX@GW^b@5qHOvel0wdgFCr=AZ20zyB2ESA_+whoMCv(6*e)Lf))jZmbj2MdU2#Y0
zh>!2eQc9?z`O(!kKf2PZHw!77y<M<~Qb}8&tG=8iW^Lx)js*LBtSkrBS`PL++hLZk
znars)m2sOm?TI74?*Gf4WVpsXdtraJMJ{?a$i@!EiwE|vZ%B!DiV*|Exwcz&EYmR#
z&#}>E#^w{TJQ;k??!6*<xV!2;G={q_>V3{SUTB+tqJZKa4Qx>~!tN{(MIbzU)auXA
zvx<ZfdD^4&5!Z7YwKeWCjc3s|zC*7W(n5vb-Ee|=u5s?I>$&SvckNsbkPC^?ff!ZR
zNQtcfoueG@y*x*KZ%#ee0r2MhQpIwY2vlh0TuQLN9-snzaWQzB_`d=iUkaW{>0b>0
zbqcGs;@eo3u7|}>&b9((z7^0~heqo%0Lxip=hKe%(e)x2V;PXo%bpCk$iL`G%ZW%B
zkc*z}x}l9XTe=fZSF}UM3e#ibRQ%j>eIFB<2Ymc($Aw@nBs=#&4=uis?_ir>H(_T?
zQ2tE29ftrG31p~rox8>kmKk+ycjX8C@(9~!Epr$noVR|bXq*?nUIU@WuL9!dxtKU9
zkFz`%m*`~_#LfP|z8b$PTBW)qMF`?SE@oLjt>Xm#7besgl3*i#ZLweTqddlveNv9T
zH*h;|;4v*>(t~YiEJ(052K<G;OVNw)+rc(-C68gpi6Y0z^(%rr8!XR2Wn087mUMGi
z#lsDrlQ}LQ7f5{Eh#Pi?L4CO10$k`MJZK9ybb^SW74HBs!Xu{&H&0n*jyy!&FV@jc
z;|UF7c+s~lErq63DKteX<hg+|rLcscEL4{j!{vsW13Zsb{9OjQjvqSL4h9lFZB$0M
zV#DYKmrj%$WFNvzeQmU78T6#SOA(B#2$I299r5Gen)l*WysyP@tOD=hCU?Y1DDfhr
zM75R5^>~qW#mJS@;#EeAbA~F{<5kulVtcZbCO>5TQEsYoJ$}gO!NN6tkqRW*qyoQ<
z|74AHXxxkOoz0dfVxTVa9{#Xr>rfPWyvh~jmYT>|iZ@R@y@HgjrZS3D`l4Kmscg9w
z`6Q*(n8~Pd#!%&o%w!bN+FX+~UA2@pZ?dJU%3$T{yvdd>J~1Sv$h(XpwG39S&AV(V
z%go2rROdsslvNn4T#*kMMUMMIH8uGuTf(Z0Rj$fUS)XKPJZoz5OGcBk)+$%!msH(1
zQe7_a&2L%XR2i*Yq2IE#KfRW|wjz*Yk$oGQ8;xjZM<cB%#oK!^(^5GqW*QT`WIFIy
z@jgRQZ&*_7^veb(?Uq#JtXJGh%R)6<QCT<)gX@)rwk8`oD@t3r9&K5c3O&kM`gN_9
zUezIGsmHoHoIx*_AF^J?UBX<YY}c+ac|TuPQ}llA-o7s1(bosH(a((G%Ls<`2P@}B
z*ku&|Na;{9_$?#&S4xM<QE3^)s5V9QfUyjJTpRz~FsqE=Rmw<}L!dH>`UBs3gOf6z
znUt}rMh#^Q?^4F9?8%o={H#rJzK>nT@morb%Fb^Y1!OQ!i*_!Y>#}_;nYKumYAX)a
z?y|PR(CSx^nmzauw-~xq6{+f4mob=93{@SrG6v}WyNGGIvSrlkN%ao5l*x3ZjM|0k
zy3IBToe62Le1Ogw%{*Tr5Bsgk2p93u+4Kl)`gew+p5=1Ao(t`^u2quHb*4*7u>~C<
zd2^QYhXvq|(g11I8x5SVA@U5T1Kfg6!(}e-K!+C51IT%$Bh|7T`Y4wv)P+>&(BH^u
z)Rn4~`)>SY3iY5pB*JS>pPp2B&UA<`)99^kTT^RcsHna9s9RU-FqGEUD#sX7jxp^0
zkTU0(>Ud_<UgGZz+;HomUB*OqosA}zy$|$!!*|K9jS8%6>B)dyT5@WZQ_DUYp<l*^
zK)Vq~-PoL;kyHh|eEVubH-~PCMS{JoLh~9Oi5h*$lAgp|%3PUQj?2vDK%0vX0dnSY
zYAckTQ@Ko=#d&S6g|F$GeB8Z^Zdnx~zkZG5eae~p@6x%_eGE%CSh2Unig$XlC*<Jy
z&SPWfdbkPnOe$G9_|>`YaAzFQb?lBjYyz;Z4^Y2t{_k4Q!l3Xgu~)$Xhpg{K*g0*-
z*vAj48GG^O-jI@X$9V;I#_{FQgF@*40j6Y(mb72=3wYYiT5EIKI24`zNAVN;BP67y
z18EmXo9!2kFc;#*uSjwe{{2d_oj`&?0xPpK8DfmjInveD)sX;AM|XcFckG(_^vC_Y
z{~Q1MdxRXi%{(9^CwFY%Aa5uxEh~d(L<^i{u)JgZ6A!uYQV@5@U#2kR@Bcz)@=a?(
zn{D0swg7!PhqDbBItM1Suj%^s!TA?|-}v5F<l!XABcC!7XKQ~Z|DDS$9^UkC2LJqi
z{+7<}ksIX%oUBYMgysCegu*Ce5_OKs$zX*^o^S9Y;H5-bSL5cr<rV-Nj+4>%SiXVG
zy1LJnK&WVE^}IC~_a~TafDAj;vWHK`C2lk05@Tjs!s%yA;~KYhYMIoS<mUS^Db0_^
z6jsJHX63@T#yvGY$=!a*a^oTcoUM(E+~myu3=zk;$dIo<#zjVHkr)@5K^mJEVc2+W
zl+MSrh}Y+k$hgXY;K+PmuJa_%K0zg;%)AQ0%zVTqI3mVtvBxbfm>-u}S%C3L>CFj_
z&5!<l7Jot}|9S-Tp5B+U()cpz4__D%<1ypAKg{Cj6J$sk8P7BSKBIVLJOz59{BOW`
zcX~Il!ewGyC*YQh|C!&c1~W)jpJ4++A@ma`r2(Z{$Vp=6jAPavo6p(!Jn4qei<giw
zZzNv3VGNRZ1uRY>7}pnXyzPfMZU)b`>JgNClFk>WYM6CSC=QwA!*|yw52w7=Bg5YQ
zk>M4;(J>`O7m`kE)}5os?iqJlDPn(!Q}(J?U_$voSy$o$khrIbv{GImV-#mgc-etI
z9LDlC1_e(I7R%kVk3!MnSrQ93F97cCHo)O#-b*O*p30m-$Z{lW3JvDDEF<*o*3}?5
zq3EPI+Lvrh>i=JkUZKxc+!LfWQX0mP*DNuP1MbVkap+l*UA)P<s<JYB=4Fw<<)VR>
z=ogZg#pR-*mT0~2xm0wB6ehM*^+sY^%lfiFo~#j`{63+&-eVmpvi6We@Ut4HT6BUc
zI(<U$_RQ#Dsd=LM+D-NKIWo%AB2IY86nAvM0dM#Da90$4jput@Xc1@74tcc|67}jW
z#5X_MpcAcYK?M{TI*#14NcNsZ^7cZgl7RyMgFpn_n?+#fs|qZ#?MOsjWZ5#L6QC5Y
zp(P8Bx8Aa2ik6VXY0P(*3V_#PIR02Dd?Jd|BB>u%Sn{Jsh&Cv~l&NDN;VxmpjowBB
z!{2d-#|YKLEC^s-ok$#}X<`7AWUGl;i~6sLDMb0!#1NdVK@(GEm}vCp&HAZhq=X*E
zijtg`1P~@`b<mExR0i2qCRB3jC`K@!%0#bMF6QNRUFId##K~kpIYCU=7j<0I%11~F
zP}lRYSRI8Pfda7l6!BzbDPGH^GBA*%K;^lUW@~My!0b^pHWf}*TvR-&1eNw8f6)UF
zP*w;r%hR_Ze>mkjriVE{?&+(g@uNo>+@MD3DACS3=b|0fYG?4lZYgo@nyq)F+Fq*?
z<U1Rsjc(iTTUIIaZeUTa#no|2DO>$grrFFlF{+HH5R<Kxhb{FMwv}(!!+7sw@u8s}
zuR<Ak*YZ_f*W}iz{_mR&oj6z>wA+c&BIIepVw?=0Y<Oz8w=I_3SwrS6MN4F$F*=ml
z>V2>;PLJMAOp63>-;t{LLmqsqpCtKnb7-zNw9Z9s*QC`SR_=YPas5t~mQ_^Oh<{M)
zxSeEXYd74Ey5aEVJNvCx9NQi5uiJR9OO>`c=Bwq;sD+mA__9Ahn0rg|R6G$s$6v-U
z{yG}=d14nNkE&(W4#x0O{VLF1@n?7BJMH7CgzKr#mlhRQY^HqSj2PwJPZEfjWsmqi
zd&EEBD>Vt_ru%izRh{-66%87=qHYk^QbD8XX7JLKp74m=)L19O6DuNL>kb-_y#=u&
zuHLe$$2Hv-<t%GXiw>pwvig3m`JS$MUu%5T)(}Tt)sIxI>ymPZ_aO{jalQ-3=q%b6
zH%Gsn5!~}^+_;NjY%RBwF4zzHi|?H<w-oS`E1Zi|Owj=cgHKg0_wtJMA6={Gu)2u_
z#xQu=&7Es=;>Zq$>--}y2F%BB%P_eIa+@!dF$SC%Ol*^c{Q6@^GL!9*x}}!4*s87B
zY<BdhdG)s1*JgY@IDa|IqS5#~?_`ba@@91O%fGuCjBD9;RnL>BaCM%yo8x*r^@GsM
zHffq{R@3v&`OA4;{GZm?4d2$Ow@#x~9<Aop`qJM{!trbBug77Wg_U0Mcm6jP<hlP$
zR9pJN?>xnC9>(=EKS-0^|L$aNf9v_Jr%^M`#`Wh-l83E48SlZFH%dnPAO8F*8<#gQ
zH_Ml~GO~7@1W#5YD{owlX_!VY;Xg-Kt#<dn9jw-y{7?hTD&w!BuKj;VSFMg)mwrCX
z(@k)=;Z?te=N7|TDC4WvkHb}=VQ`erH_LE!xM4cKhZ*JJQW<7rQ2egHI@sW9y1_Mf
zgF8#62OFKM8(r1iYnP;9G+!NZlnvb|z1<*ttIhIY!)xh=*V+wll={)(=0|%Bu2G*w
zuJnpu9=Or`9^ll^{eKLwQgrHm6vor+++T)=v*5&N!NGDJA8dGmuEecfh3^(o9R3H!
zhfR?KAH!r*?Ifx0BrH1NX_BlDCSs@?qPH92L5DXpdhpE8gT=wd7ip*PO%@&(fBA6o
zJ!zNX`hE%7Pn0lU9B?g;&5Oy+D)VQD>orTG4-a})k|l;?u3{Z2v(Ar>X_U>~D4)U{
zJbQBTt+F7uM%#5bjH4ht_~6uY;bL@>li|v^%)z;So~NpIN5$`=$tFLbc3B6XAhpja
zd>yVsKR@6Y$B6x$5BnXZslWXX4DW9RosSlC=mGlZm4({a+g({W?EKXo5Z1&8geA@6
zEYnSteVGTVY4}!xj1%KZa_Ohxig4kvvA^UvDgO32+n?0Q6a6b!9!nV3pUY=|pEnjO
zY3<{@@n*Fu=gd(&NbIP+<HzyAhF8@d&$;`<_WhB_K}YFe>%s1rbGIP0i=Z;D@>!10
z#mBc_uST178E4<p(E*p4cZ<P)WOVQ>zKyc$uxMpbkRNasyT+4>!-`nfU8;9l`;dGQ
zX3={%Rj%7-haa>z{}@vC_uSr{_O|yShZ<$eFt_(H2OC|_Xw1WoZ>%{R@`{zkKaH~d
zV59ptuS=FOz8CHIhS7ZG=bN;Qw)12h-~RHLGCt2RH%hvsW;wd9ac-0{K744^%1v>C
zkY+)$t5GM5UZdmF@bt%^cQme6*J%=rmpgws?r`m|dTrN8bdK|qK&K^vYTcwHl3S3R
za!?-^-b!M1k~mqF##%1@l31VSErs>DNR+}FMe(#G?HhaTog*`?ILT)K%NgC*WrK2P
zUSa>@pWZX&)7HK|?Vs}_ZGZe{C)zi~`r1#ka98=_&;8GpkCyiRl<RNkUn@~d_KZb)
z@+W7Fo>TVd#P_5wJ!v^lM0`))peGkT=<q#ji=I{b{KEIN6Xu7tzoq^?Yry=lf+N1e
zq}^TbJW%F;CXN{OmECXsp7n__f6KXz`aOHX>K-NB+xwpUg;8nY$--w^&HB|^hvCyW
zDn8=pUo?-*aX%iDeeu)CpGLv>cfJqAXRE?jwhu4G(JaiPW$2xL{_t^1u>TD1ZdCg}
zej_JlWG#;J+Uc(6=|EE&s8N81d8%j4Xsl|bfVH=IXap{3z~(1U4|}A;It$-0vY0O0
zU}Y%5ipDCOk@w@oH_+A$&5|V6!%{6wbA<PGV2{D?P4o8}o_n7seiys)IAdUvx4YvK
z64Z{S(|<R^*ICrRndA3~f;5Tblk`eSV)`gwS+Z(He;UykJ4bd`i@y?7i3!>saC-6u
zaY&Hj-`{4BWo&aAW$W1AeucZH@cL2l-@%7QPe<MM!>`w$%i+z~-JN(fr{T=s#Cfy(
z`R~vF{-QTT^m<TKIjnc~f9`+&;x<Lx+H9HEyWwOr-~IH(Y{{6xa=p7Lkw<>qdv?O-
zFKpX{ZM4H6S%#JhcV&27;+_l)YkVw(Vj>S%T+6BclaWL_-A~9Mc*<MEtJD6>gs8QX
zH%m)i2-vtEF9lTCjMow(=EM;lYH7n8Y6h(bZ)p_RfZSl!efP#z+fGCO$<lwnM0DJN
zdTjl#E0Wd~o^Vzo%Nzkcht@|^DhGBFKV0?F%tUaHHhE%crG*5JJ1LT2;b!(ELSo%)
z$)H*qaYas{^<hH9z&2z@t1f&t`}p<u6=${$GZ7v4VJ_mrMtqSmF(<xpu$ETb(sO9N
z_)g`(X5@z}ZgeW56%eee<H(puT^*N$wX3UBr{~bs)oD;UU|lW3)w+5{LMK^emR-ha
zo9U^aiw<p^4n2pq6kRF@E(JeaEk)l%_)^)j7(ax3wCOtoAsKEDCsHcbAkKJTOJAOI
zvS^)oK_|i9v;nB@yfR)C>{=cYJ41Uk?#Yoo6t?570Ejv9p3Jl~;R7*&)_=c95ZHRm
zSk-mh6Xf0PAoO$iqO}gU+C;>K-8PjmF~iL`SWC~%={dBvTTnT$^Z4Pa`5sLKuOQ^n
zYGZk&-HD|Ma8E9!XxNsC7>hacnMt-ZXUa;W^=HOF!4|b5s4m@bj<MMmeHGDhf4+&h
zusPplOvITr<NerLce}Eaw^kFdQE_XofC@@mYe<NgupS+1H`{A1Y6jgzuN@h0j`iO1
zFy+^&Ed#@)>I$J)wfZcsWx<XaNwhWlK?Z@X*(P3T%r)c9-FiP-`LSi^I2F-xPo9am
zuq7{KOw5s29IT}wujx6oejHLcupRl~svC{>c%8oOB6eqw#(j8i4~0$mO8~?i$U8kP
zegTx$lA+eur!94`y|}?@a^tOEw-;xYhoH4k0>=$DlVD+sEksDnWRDE0WtV#*r_eUJ
zn23Q*$c|QBXuj|J=glCt3)d1j?!spY7ItAKLSio5FsPO;d?BaMy6}~VfnCUsR$aK2
z9e*2q=vK+gm|YcIhnPTD1Gh$kfED1zD*C&|TeG!(l3I%26tK}A;Ccco*aBSR8LRv8
z+8|s2cC=ao<1JZdU~B)LJsK}S-yRC<|3d&o8nFA5%(R^NC&UEWiGNChz`kR~s;)EM
zaIKw&miNxxO931A-Iag}8*eBfV$QpvLoKa$OU<D5-W`nsn~xi;y3cs0)%~;aG~0f@
zWQD-W8qlGZWt~zpXv-SXC~#T1!D?CO=AJaOENWzr##_pxJrwRJu>goUZ$)NW8ZRLx
z(E4sog21+8#;UGMiAP{ozRM+W+<6-b7WUq&2#L9G%b;5N@12}N=fHYJvZkPws#hgg
zuu}D!2#HjxUT0A4DphZgQ)nyIBx1mB!H-t@Mcw?O>9_q$xDBIjJRhw6-sXp1+YTLS
zS=uf&gSN6g8U-#aH(0H!@ph<tmb_SASFaBwaJ;+xlwjfRaw<Y%4m@X2EiHIKPNDVS
zB@qLgkR7eM(EL{G*~aq3x;_%HaSz@IsIUd^Bt*=C4|J%d0e?|5X#HopMftTeB6x$7
zAFcXtB3j*Wmjog%?2}N&#GEqcU@g6}py$xKC8BcRcEt}@{qjU0{Qi<HcE?(Z=(rnK
zA};L4wTy|mG38(_-I&pHXx*4oIj|e~;i?;71V_&%FTM%bxD&UM<9*17jS6iU0!zRS
zRtnHC-q7?eUcxkurj`fN4Of}~Ek&a)MZ@)Iim^y*XtbDQyYA31J~>;v4%rt^8yx`^
z7P==PVj3UQp_cOgpk~mu-o}7NfoDB8Se^Ce9gVKTd}I3<M&nF|$31v11H(4F6hbj4
zUbDECW*jn-X#F@MgJ4Tq#H+3}-stp(VLaP?D}<#l@1+TFXFf>Lus4mTho4_l0G?d(
zqt%M|tOZN!uL%PMJIsopej?*tSNAfFUM&4JlfZFr%_UgaSCI&bb-X7A)w18k<P=&r
zE{Pb}G<|b;XHBed?RIN>Yh!EMwr$(CZM$3Bwr$%sw(a+O@BQvSdCrr`WKJfTnarFs
zNyL@;a>$5QUGwDh&_eJm2<uJ1GJgndx>R^NsNR{p6lf2?uD)JHi~3#;Au4aYFmT;)
zwpOdcR|SfjWWpp`D(xCaB#WpW7ftf}BsY<g9ob^s9JIK`stGoGDt4cSu;xY<ts~a;
zKP@tMweW6wzgE<bS+T%Y*NAni>pZ+l_D%6Lc~`fuqR!k+;zYFDDnPMNE_ujtt4t0#
zN>1lK?xQCHuE&0<ZJYZRJa4uF*KfO%79QGmp*t9`#R6uGm{!1yfpdGt(PZ0I=BUs1
zFsQ<oY4;GjP+fu{bGqu+vjfk~*BYV5w<FxcZOEGCIG?Ht>*3Mln&qHgcYK9tse>M@
zvOW8IlHSvtcjC?+$2&1#pSKO5hA=Xkni8JXXcA33-XwuKM%n`vHPh%IU05|+WB08T
zdM1Xe2{s~Br(>=tt5eBZD)kll93C-#aFG{nXe5O-E5M+9VEv2b%)Ikxj%wf07?jd}
zlhKONqagwfNb|M|u)F13fZaXcDsk9@zwKMXPvMYmS26jSdTbAWQVt&a><L4JYV~Iz
zMshp^4mUR)k^YWYNm4ULw3du=UrrhE8kq(`>JCf&rR%{a$a^!XMTEtA(w!X1@rd!u
z+Ct_~XQ$RKD0oKTeZC?q`ZZkVlj}v7FyN3kQ?jlu!jzcgBp*D;(jqTBTX1s~KLWF@
zvc5<K1N#=1&DDSCp(V97ao>TQ3?SsN89+#*kps;SMl+ImPDde#{@kW;HJx`VP6)OP
zN9w}ET<^3T4*pbY6?UnDnyPB59I%yTn0(Y0lby`B5m%{RRh>T3s0~Y~a(f9LXe0|p
z+C!W5k8R>eo09ABv$i%JB#hKndLu)SpFRC+O?NB)*@B!4zQ4Hcg^z>F7PdX)pNJv#
z#~zB8+QOsT?nDOzwq1#gjBE%T>QZd6|D*VV|5LnPBTwc;aYvcy9LzI+Q6G~-kV=C0
zM};xvLU5)4wITpT{2wa1RXeLyA=A$KRnKlZ#Jj7NHrTkWlSlHex?hxszLXdphelJ4
z_Pj(Lvkg!M*D4?*nzT(Euo4oUn<?4BK+o1#dOEcppn16-fCBN_OC0t29tP3aTHf`9
zWZ7iOz}U~Sb+Pn^ct^EarR7#My5F?+t1$oF0DRg!O5fz{fz2}Z&7<lszu2@a`T~ej
z>799!Nu}MFjBpf6g6EmP$#B@G+R`H0PUB#k%{kPn=-U{?y3FExIcU`W3*Mq+p-#!`
z?++`v(VP!6xzL{X0)0Z-XIZ@!o$TFbJW||eYUdozQhB%X9D569NHuM<Y<yi#O~^U+
zA1(l|N**2?JT(HRD$=+MZiC{WgtHk_qDe7B&+D9IIN4RW$c8!5Tx^plXm0~B?;Kwv
z^-#LBKZ$rg1J-0mJirvG`OjX3=CKD=XZ^GHTkb!G<bPmjP}tPb#{Y%NAkk|F&HzXS
zbpXDH^8b(?%5Iay`pj3VeY5<IP^}@t0=qOps)aG#*{;tDN2veO0`O3F`vX(;zdU@v
zM7pfu{{dXJlyP$Ue|3uJ_Z8|VIfPN}2ECa8uk0A+FRnVRZyQzWJ2g_Qaig7pbbbmY
zv4DO|dVK}|36J2$w<TR71zFi#WD|*@e#Y8-g?z-j`IMZA9_`_Oo`oV0Knm6WUhQ!B
z^(2?@N|A#+O0^C?2MlmiKwjjxx6jwjl{m>d4o{eB9c>EeBw+Oz%2W=&<VepWs4jJ*
z@Xst(PQvC0sZm5p3l9h}6sr`(qCa&9&wmqJfgzJo#je)J2L+EZ6_F2N=JRlCiMVIH
z8(aoX@5Q{=c9wEnASIhqtrQFF!)7#635Z@b%Z8ozxI2Pm3{VBc1_gl~idF$<(#>$7
zSKRO7BL#@zEIQQ31Q?tJbWlJAX>{Y1fZj!7tOEpjQ=xc#j7S?7b+z$hDm<N&bP+o4
z)4U&4sgG7O>8g}TKOSfeB7d#=qdAU`Nuka{9Y~dZPaO06N)yEpq*@)&*yMkW!A$RR
zebXeHi^>+DS;+qXwx%%5VogTn<A%UA6LQ57)rn23sOA=M={ky;G>}lt!6gAWLI5uQ
zUNhQ>%1K^QIv<VVw}5`Ye_FtCYMT<E2UHEvmH1z>xl~Uwin+6#Tp@BLdB$5!zvR;K
zO5-|#6u_21GYk#{)(WK-m5o6+&mwyQyb@r7;8yVhb@~9^>*E_V9+!w$qq795QawIr
z?F+g;;5GsDXml;lVXyMOZ>bQ2;kac$=S4<zmZW4}!bxVRU-F;UPap$B8@|?p@|NH<
zGi1$C)k$sZsE|!2w<GK?au%J;Lpt&u_5T9=WA)%KzasS)aLs-efX=IkQb3~sIv?&R
z=w+Pn@#k(sshbxY3-SU+^A6{JBPAk^OMv9HnGU&}fLE=w^d&3{$9RdN<Oy?y306j+
zLF3a#n{<~LzWi+e7w^(9S(HL!n6JNF1yx~x0_hUE&x9O-4tPy)Eo8<z_5V>}+B+OZ
z;j32=3qZnBGi-3x|3+srQfzw&26$k0t`PN7=tMxtL0F|>H}X(wj!qZA`w7`tps17H
z(ibVVNa?6~)Z@$HB(1-Hl`UhLi89{`YP8T17W*|@3Xg=r&7bATMCKUI%0tW-A%$xu
z1~de*{+o%Gdy5{jy8e#wP(il^a3_)7b}tW^<|;}F3E63cBg1k(CaPf%+fCasSI>0w
zP*ZsHixJhqAn3oTPw3`M9X4t!O?1`$DByLCb(56$3*3~I3$f1OM+UHs^I?WYdfW+w
zX|~r@M%Fs)6kFliw6+>z;=YM3frG;#K@wz)<96D?F|x{zIBOef4~M1xM+}($d)Eo#
zGnaf?#fla}(F|Hg$5n{1XtdOm6cYwQTxO!!wl+d!knk|pQ5*~+HkVf4-!H}2C?jHO
ze;cGdQt@@h`yk=bAJvD$VmJ~S88ROSKY#FP?K5NHr@d)IgtGJimh=RUO#=0)K?4u>
zX=U8`S04S%Bh|hU9!K*00SJ$HL`Ju_hL$)3P|lSBr^SUc?8%U-?&P(atjW8!dvw4`
z*eync`Y18A?iW#gFDX1qDl4q5zHf$wg2G;8L`!C<i><?q#P(!Uwuaz=R_EZ?1zldp
zwL>aAgwqJ)BCyY8q)HnR^J#d((DJ^IZFC~JSI%te0*&4@Qbj3fxMR-fN}?aNY1(xs
zLg1M8&lT0H&j+vt3^DSexC#yc3Xkv<^eu{{y~yCf#(3Vshl%o}1TrktMae+-aZ^Xo
zTyzyXQX5-~ZEF@gjBRTS8;EsB1Y#7ECb>rcxe5S-_4|+y9^(DUZm)&i)J*sTO!rWP
z3J;4HRiC~_{Q!Fo*ww$7YwwwPQP9|s0r=X6OGo8?D+2f~>XAYklgU{Fwg_mqg+bzD
z7>_XT$9gqTPNVoSk_@%$LI%JWAcRbeCo;rIe2gc$9OmAJQ(D=rIqRk7%&vb5VRuZd
ze+Ka#^*}~*ylMIebn(OE)7!|iX@k}-asdX=bxKTEbz2f00qrd_s_7hUVBsvYh{@<C
zX$a6xCXm}i4k~=su|V|jKPDs>bM0{cp%4`)6KUx{4i77lmPKN(KXliCEzSxHIuN6R
z+R-)UdST7=d|UbKi@f@hG|-UnHev>P&Q}R;Q)zXtWbBG`?waIY8}*KeSb97?I+`l=
zshXn#Ei<t0Y{=jSUbxnL2=!nQi_VgXep`hM5o*SL6uOldQOlUk$>;7<fEyOQcw^Xh
zTAza%u2fweJp?fc*$s4t<vgG4WT2JjDArfCeG3O2nDrJ;8VHqjj1@GJ(@6Lu8Hd(}
z7QlF4WrsqJec~Az1IQafqpc9f`s$zx5F`IGl-+KQuxgO#A3pHHl-IS?2Zuv<77Eg0
zdnqDoEv~L+PrI$nh>JLH;bervb{hRQGW>Q=!LQ5svm=SJ$J873i<PLP2*!sGu?9Qg
zw|<eJFbgo+N<JMCv2IjmwhaCHLW{7o_7<yIFMkK7&diLbH6Us@C*25Ow0PM7Mhi&Z
zT>ZahdQRGy*jnF&_ZKCuXHcy;ZGd+sMkk`Z_Is6y>;&oXUCb%Wr(v7zcL&CULjpmt
zvAU_=l8}KZfI$f?Ru)L(C2LyWeIYH0y85;l5;6)KnG&t$X#-7LsZ-4v7g6JMJ$jvk
z9XD)w9ShTc-4Y7Z%rGJ)VI4!SD+1|6W@i1Le76lk@?&^$Xy+h->__t~d<*+!1;<6`
zaqviZDR1?Z2Ls5h#?sRIkDD!{77ZF&Fx)8f4gmlYqOm72A_l=R)$-A<-l~e6NxUYM
zPWk!OHj|373%Uo$=h+<FFB`;<7<!14k{oi4WS+TaprnP}oCZyq6v}T#$(7&LeVP9^
z>|%P-_`&S^7H2JEDw;kN-i*$1Qz!v<^0W*$)wZyFpa);U%|}LiaorwU0I`a6`Y(?A
zO-PnRT4iat7UTt|`Uskq{w5)Z&YEDVR+Bgjci)WFHpq=f+8f=GvcT20(RleIOaw|M
zNt^&Q6;wlieRnv~6=Ig(-iXR|M@#m%@GQ@uUb@^OUI<3zX6^S4<YQ}CFXKXNOHXUT
zdxylz`Q`ofJ>a{Kdjn5}k`=THnbOOz^QbDV8;MsafQ%YC|HVE9d?qIrxKps{yp&x%
ze=%}xrN^q6S45%^ws~Ep2b%|zXoJ3q8f?mTy5V^xYgh2*%bId++>XP_F%G)AId^!v
z`uX4(c74HGH{dsO=I#sH^yi&hx*+w<MC$r=R>>kQk@|*IdY>uGUPO7%)?FXgt1tTQ
zC2Epv+m9?vEo!rij{RN~hBtDvRWJ9VeNQ=fskXn4v_7~iD)Mx<ikDh8^2x=wh5Ysz
zWZkI^L16Enh7|dZYn;!Nh#Q%{-X+Bk#T5Vd7*u#Ual%vGAS7rTm+8CsC>aGc;7Q~S
z0m!J0&fgI1G(W$?L6yt;;lfD@B9i}uIM6{J&JGvxH#Q{La?E9=!SF$r=u(5;zi4%y
zE+|#t>885uQwE>~1UY+L2&CyCgNq#w%jC2o+kv&THb@btZvmn)Lh*hf3UOzo$coQ1
z;1zG&uxuoLumubxYk$MHVc4N19{B>q7SAvrIrbM8{xNY$1|iUqPvEeKX|T}<)s|U<
zRJB+aB#rk!Ye?BYwZT;6NK5SK9Rup=av?+M6&3@=#*ym_4d_QEodf-3(9F5*!Bt{v
zhkUc2w^?E2(I*a)SI428YT(80mPV&!YR;M3knl-XI7w;60>ac(M54}*=kJ5hML4Ew
z9=jvSa2DE`@g8yazrEPMBuau)1;m5%=ViVzipsIlFkcd;7|dC>_^HqF&G2FrsnFPs
zv<-k6{X!M}l8d{9p5v#b8)!1NB86wTql+5yc}+<VA{|W?-dmUr0CxZuF#rBhCqlp$
ziB&ljiqelMz-p?SJj^?zP&SKgiFEBmM=4EJnsYtIky@@uRjte&V6j^6sZjYm!rLf&
z@lJw!G&bK0TfOC|J6NUaGmu=q@2x%bJ5HVW;a&41(q#U;CK~&0A*Es5h1iBJMOJmg
z7voA)bWR${I*8FH@a`sU-7Q`HZLJ}JJ$pZrSLV=Lms;G;s(DiDcyKpCKyH<@u{pQl
zl%klj1CiE)USn{t*Eejp{$mX9&kvtpx77{PK=Q=Lv6%1;mJikSw+c#AwE(7KfVlhc
z2eVc~2e10~K4B@0A5d4ycUj66$no=s`I_%!7r8`**FhX71ht05Y@LM_6gy>>rmm3;
z{0zh{Y&ewOos(PE$nD$a`5VhJYVCT*!*YoU)4Qwb0t-Fu(pQBIotUmKbHB7}J1DQ3
zllnIWk@0p!zfN-04L_6Gsk(mv&e;Ch*d*l@N|Y4LoeZcv$K%1;P)sOx(h@gmnsj>y
z5!5*yeYN~lA5aK0{gBGmnI&6kW^<)ft5pvRlt-_w;+}gA5XlT2hYmcB4U5@d4Q%Z$
zt;c;4@waN7f=TE*2)Dwn3ziRy8O2AZZC>5UIP-G{Bv*r!X?h~>K_j+6(Zgs7%N`N`
zAZ?yq@#!diB1a>Aqf$I`%l45Rr<9aG^K0m9q(zKMPN|xOw{>~lF0h%dg()6l27D}+
z5S`b;)Ud9*$LRDi&qa%Fpo#K7uAM$Pke|Q47|@%;Y9X$q0SSq9Y@9aRYH~m0Xfzs*
z<2<fS<rYe17F=JWL|e|)V`w-MvzJa+^#Ye*kJr$F8^&|EI+NJx?tw@I;=zEK{<%KC
zA3MFbb5n~BUk`qb_s+-Fs_oaUl@5~7eWg*XGmK`4HkJ`bM4G&P+Il!}!u*g6qcHh!
z+I7%o&^)=nJH1hVJp6h1f%&44Xjm_&cx3m%-Hy-`mydo5%vZDQoyt|mu4-o>O&iT?
zB+>QZO&aE?9`&t#JjuiJL$fKP@t!Vn8A}X=r#XxRd-yY<F}7*JOnnaLtBSkjxcQIz
z=fH}+eYa*^2YI%F_kpfe;EzWK0lCN-pIt+u%mfW;orrzjcGRzHwG(7`wfQRQL_d`2
zhpV3;_F=+*y<`dC0bS)Zk9f44`+CERGVcnSM`*_tTNWisw)(le;<@wL$M>+8l1J>P
z2b-17-ITjp3^h^Bg4IQ`O50&co8?_7=qHE84<`y(F2jzYX^c`Q!$O&&)T}@J>zu9{
zW9Zs<wKH!dFE@%DV#SW!h?k)$lh)t;0}iBGH&Ca3hLi+AjY<C;8V%1ssk3ly@*vu+
zLDM1S-j%&Fe6!VcwHp9o8t2h|E<la3@e?fIn6`~?`3Sp%zQ|J<U$a~WcxB65U0L>A
zpMyd+tW<kPhuI*cZZ*bv>o8t1>!8<a<7^vRv2WcCF-<w52o~e!ynn)VT;88@oSZt0
zMgHlr?lLwEkB(z=ODaUNwXnt=Jp9=#zTJ&4`rVDoPp(&-wcII%hRbH1_h8-V>sCNE
z8iFkO>L7T1-V6PdH&^Y3arv}XXbmKK9kjA))*a|$WQE?{tAFa#*f&b?C6cF3Q1k*B
zdXR$~N$!Df!zW$J_U+%vu%{J&#z{93hhpir?KIlD>&W%~F2tGy`FtUJu{`=@;Ou?>
zK@{6>xWOi-SG{uE+nn>P5lS%m2AW#k*aLkp)b-a-k%qbUf*@r|yzagJ?*=gZAx``y
zjn|Jv!ZXJJuW*IPu76j=#QMYbaAcfDZP)?e9)#SeYip1CAJ}b-nnAZTx^tZp-eQp^
zcfZSyi^ck19L5w4hdnU7Jihv7=sq^CDKqQ00O5|)w|fEIR=#y)icJ>h_?j(LTbOZJ
zTa>M(NQ9I|NRa(OD>J+9B{JCyg&~2S613<b^XX*AJmj>m$47mz`nJf@`F(kD5G+T0
z$(<EKoxZF6W2xJ|*M5b(+l$6Gd@7(-l=nI8<#fc##OcTd57wKObwI-1hxlOww*c*%
zeJG3@%bA;AKYJMpe?XjlG9L}y<s&|`=Q1vZZlybh^>A>Vr};<s9<}yY>el9_m{ey_
zsrDFF@jlIX<Y3|0j>|uDR-;R%=tz0*c_rT`uH3M7C6x-XeTXh2<alz)C#dAJ_!#`*
zy5;jWB;CAH3MU@y+L8c5#6R=aSQd^OcqN|7hq5^X+@8xtupQ3}wuo+XChU`MK-rfG
z9d;g;uvZ^m;Yd?K$zP#6?5dMGkG(s^jf%bh-Xd)D8nq{!`mXxjZDQvBmI)hOu@w8L
zSAaiD3v!VZ4RCPj^M=LI96#<m|F$tBu`ZjqJwN*Ql;@}Sqr1%$yhAg&ZeLIJ<&^I)
z$MVeq;kU|K#IA#TI3!~{;cP`L^=Woc_NM*VHgq>vH7#H}cm&0k#$)9+W!)Sql*bgC
z7-c4_ept5g)`8a;hN9<vjU^$tzKT(1+sxa^@h7t#YS7*pPiQDYX}xf@P1{kEKxosR
zTXy)8s@yne1+Hw}JBsvKOOZApL{Ay0X<vcmhr*9W{K;49M-&Q4+`evKv~a)XZJ<9#
z6g-Wj3WvcQ=-(j_Fl1YB#x>N?+1v#@0v*~QR`3ojE+81zMM#kF^n&l~!(;*)hHKrq
z=PjlPOMT=qot|M8TM2p&&5^Q_4&&sCb?k3SC-mwM@!)w^Ihbk365aMk>DsN~M&0&F
z<=QRsQnee)0u9-u+h(%e+05gfBhBMb^2c`5e&xnJix;ihJ&%8d8upc|;e(UXjVr6t
za`0hn8K%{CteN4hS$}o=?W_y5<n5vnZc`&{1*ToQ7OSUxdX}l*<j*ME+!`pKrGwqD
zOX569XB!>M)gFlFQ&0vN{z&m!VKeVzEK);%TX!e2tw)*0^c;0K`i`?q$Gc@&VT0br
zRvS(yniP-Y#pX6ker#!5s_vXZD0Nc&urJblU=Mqyj_@5fz9#9;H&U!Ng@0?LqIZZq
zmM>YW@nW2@u9#$tdT!9Cb#{nMt}8a4k<F((qYDl`MLJT~L`__``Oa&1o|#tYIZr=@
zrgF#6Q-8#dWb6pv{-`%(pQFd1Oc(y}D~G7gBN1$Mz!uI^W|>g)Ac>x8B${hh&kx)6
zY%g2Y%|A=zn$>!m^cqYwI2KWZwvL)`FVeya0Ak_vdzyJ#l_YTcEK+fyiz+yYN6)Sk
zZ;${YkF=vA?p3J0d1a^J$V6deOTU-WE?BqwZ$2=|vUy%3X^WQhn1bo)s^>n!*Xy3w
z;;1Hf4Dz)ZjSG6s<no{2?zvy1@|{t8MMSkZLma3<^{ZX(TureV+v|!GYKbd_kOm!+
zfUHL*TtM9X0>Q$CR2Z93kszclaWzlkNVJ9-^#$t?VR6zww+utdL_o-ec9!^K0v$q^
zC4$<a(hM}Xz=PpEg?z?pLGi-1;cUBn%a|bV>@7ef-Ty2>s9nFDd<-VYYdZ)h!fuUi
zhF=y3Cdm+F&_yU8C~;^boL?1d5RvTtLLx7?DBHLzJV8<_{)v3-5L{VS_5`D-o$|-P
zxMr-PqPXOa&_LpH2oL11e7_27S)whBD51;&IQ1b~3~CdDRC)1c;shEoEL3s+zqRFH
z!OX@&l0?HaNSJf0Y<Xp3GiLN&21(|Cy8Vvgct<=qf+TB6k`QYbV#<2GfTk&|kV=Md
zr~3XSvXtI|a^4h@xd8+s<Aw346132m+A3sDT3e{{CW%n3`|_r>9Tkguqggdo&AxPg
zoZ1y=&$J`zmh83OK-Sb5Ph{Hq>dZb`5ZWsk4j_rzKHkFCKQOeOo%wSo3Lj(PP2k3m
zNET9K_hfVEF8Oo;sxwecj1;9{;alW$4|)4lju%#ov6?uOX{(#Tg4{tuVcdc>mtv72
zJIXUAH1!M`NX1PF5tV~@*bXjRLd2q8%$!5Z=SUHl*S{1Z<~RN#7xDb2V%+$4jyQ%!
zj&O$`Z&NmGI#-IAe~}{HDOQlh$E=-9pYf1dVqmPEsbH2yW>k?l3eH^|Y1~pkwn<Mv
zxBx|?sgK9(cE_efL0k5OF|1%j9CGOBy9O|_<byp(?w;dtGD56|3ztY0Ml8Y*q+(o7
z?28PZjNY<}-5?$JWR^L=ieb+k@otV*oOL)x54ohdx8165DC~cIQrB463wvs7qzOQy
zNb$rrqV1K;iOS+UTUyRwj@YPLW_^BVOx3j2)2lENr*YxBZ&SV~<n<v}MA4!(5g9)@
zYaDU7W(lehwF?@(SYoL*1f&ZJvW$+PrZeec3DEv9ORVCzy$5;LmvG;s7@$9b*E{pz
zI`b^>_)Q~zWMhgNfa}^~(2uVsE+;6H+vvf4*trzXgEBU3$%(p70v@0(9kRT|Pv{pi
zMpnay^zf!%XsLs<B2aib5%hu}%Xvx*SVamyp5H5CO3FjRx!jqX_Ys`AfJTs$-_g52
zT_JN4dL`<OdLhiaa@0G|sgUsNsuEUj6o4|3#FP2qh?8{vO$>In;39y_0SDhJ=2!Xx
z{PHpkGw4fDHe!ZsRdz^qomgryd*+S3lu&!}5IUl@zLvqRu#qd|V%zY7M*3`fEP+jv
zF@{En+RG9owheu`?@NfyF4d!Cz=HEoL@?lj6wW2v)SSUrD-;n$fj|n)Bzgq0jUw7K
z(1<ag_`O}#M5xQcar3Q+X95>Dp73*(I&N*Fng(JS*iD1N%1j^W`6KdLpw;<8%Q!^-
z4d?Wsm+E$MUiqKHn>mos26#2SV#rT)GkD$Wu>I*V?^K{BQ*JA6%V)na3-{aby(d(9
z?PzdDh~cQ$-#T)BnY1w+N2G+NvmE^)Lp-MDMxtY?(4n<LQW;juBJ+$^gZnO4Jf#M`
z5dM}ZMn4^Lx0G|po*zHPl_d*%vjuguh#EUGBoZaZ=mg<xZ$lXK@6yhA>U=so9QPrm
z+w#}-{5g9fE*}WSmlc6O6WMBm<{65^nVZys%F!K4!kLR|bA<U4kD+G+D$fRi06NGY
z0OB9X!2ue3bAst>LkY9>mme;|Aym%t01c+%-9`ki$u9h@e18!NHRR#F6`@x~2)51c
zsuUiKB_&`TsXuBW9#($11y6Y4?xqCAK2sv}hx`{AA``+6DhL9@6d@tq4p3oi99u9D
zUpWz&%R8#`;R%5F%>y)?GxootGPYpE9eHLbq3-g-tN++|!3-Ib-|PStMf9@unIGIu
zGnxz8G@zu}MG7p(j>~5E0E?p3+W8l-SDs_K{Oh3%MI1pKtdq%V^97A2>)8d=dt@6T
zw7VqZa`*|wB)*zP6v8K&W6bmh0+iGD0Tqq^V(2q}0E5DOhPKV3*9TfSfyeZ3dIyCd
zw80NxggQdO4C2=fpoChcUI7o_2310=@T&$DT>e0ST3%cMF4!2xi+61K1CCVor<70`
zWgGr4(Z(u5_?Q|4IFbi!DWR57j7?m&jDU2C496rJ7-Mt2O>PiyxF?Vdq{Rciw19Ms
zViu$UVEQ1p(G8{yk9KB&WNfgu=>a_dHL-dmhvVPihGCAU$_oTJ=o+tN;8%E{hLca`
zh6P1sp;$%~InhZk9Qz0Bgo>1H7j9VQVxk)g9GRGB;9q!T0VokCa6%niQF&nduMPre
zvMd}5{;*HhssT{Zi5q5Lxd%QOLykQQQ*`F50a#I2v{0DBBfqqMvNs|qCJX%#km&R;
zMt_AzVG4#po_FF>c9)%SU|Dj%A)vA(F~R=(m*b>#5RIhrae79ei<1mYAeToOIR6e0
zax(s$e<+~&w)m02@@xblAV;^;QjGi?<8uE2rTReO9h(oYM^)+gj(2JZaV`%UGVyJ1
zbkO3QE_9d$b3flG;3eCm769mpf?kr{iK0wS{4oS-&Vn=ofM5Rs3?s-$YgEzCM`H^4
zL(q372z9#$Q@FaFquF%*>yvr;x<H}#KM?wMkCqhrNkQ){U`_jb_POxjw(fs+L;cS<
zG(Ff*j|xn`W6)dNtvY>m?b5|+zfdonCSrf5Q16o1HMss#F=;X$&pdwqns`84koRp@
z-2q$blYdk}IQZA~;obaWVtPMy8A|=qWj_d9){Z=j#u>DELhzObncMc1s!;#*9Y}Bo
zJvqlUbtk#v&8McW8xy>Naj20>vL(xYW0G54v$uSVT!WiO^Ok3j!WWG^(Mq1|P7m(*
zTdeA1F4D10Pedv5RCKgJ%QlRBQN8nhl&UNB0ng`bt5ZwtulFblFIr;oV+P?{6HMg6
za^l~Akpkt5jtUeI&vztx7Ogr>gF=<>vLBaEu({|VuQ8o6?1S}IS)kJmi;1*aVzrcI
z1$D09CZ36WmTV_YCWrcKfbp7*`!27m(AG|2D-^P6BDoI;LytrGFSc9JJGmsxkV92{
z;x(Rv+Xq!nZy&n$M4mm?nIrJm=sn-~-=E^lcS_vR4&45xHre5O(W)frH;7E{AkO0f
z2kM>Hy88UOY<&#~w9&wUYvEP{qT_|$&?z36EF~G%Zo6QDW5>|F!gs|t1>e(-7|8u7
z{MC{0fn$(CQXslj2Z4nbDL8U73M$m<ba&aPfm;+)Wv(9Fnb&5!pn?0^ySqhwLlw2|
z*|Hd(bHmHloxMhOsS>JTv=Ok*yA_|#+0FV<lFs|q8~MY3VXa6Kct1gVj0fBRFA9})
z6^a$u%!!3umW*xeLwl5jH80_rC~K1*N|e{^Da6>=4oQ0?8}=v97`ul!>l!B;ND0$N
zh`~{NPnm#2p>6wFql?INO}e8m-S>UOJZXWaLGOkTCT`#ixZfNkI#?@v;GC;L@^vq?
zjNv0dfu;6DxOPphSXQ2m@Q3jIUw9Hn$ZT)A#!8W9ZujpcTB-9>?A<~6W1oS-Wxau2
z|JOIP*cvN{6|y9h??Z${8z=<q(V8IBwZnXeD=za;PK3<z*{TV%Ey_@qfveM?%4N<1
zPUBMcFzIPY?ho00wxavr^ztVZzPf{QSIiV}Sdj%<%*C1g;GsEU%ZXxeX%Pv5G!7NB
ze%i%2iY12Gi_&$-W({WcBvSitu!9c5ub#X_DfpNYX?yT8=SjRuXF1jr(T30{O`Lt<
zg-Zq@D-I0`k_unU=I-sNrdXlt>UV{d{n&cc9iyKa1JNC&)AJP$zsO@yRl$AFV06h5
zS%eML3n4LGDmL=9?tveED5`YlIDh2hFP=7fA-spp2Z~{<ud$wM_XT++;eCtZ*s?FF
zMozM6DR5gmxLQf*!h|8${E)auvPUga6*On@@?-n^U_1WYw|5{!=7IjZG425i$%<Ny
z+2lmNJjfVuSmVl--S-3<aCZzln~2VuSi+Y3n;3S&W&MUMQ+;W)H1y*+iaa6iDpo#-
zBi1HWE7AiOvWdx}<WqSAS!BP!^WZXB&HP5DxL(e~A|Mm#_MF3js!HB%1lwAl;au>1
zs>QqNE7?F<f>1_*2P7I#C%5k$T8)ewq==bggoWf2eFHAJ%wA+i9F{$Bfvi>bnVo>?
zvq12-|MkL`6NcbANJkuzz%NZLLlINQ026%oFz_PU{%6EK(_XgqfE5U)@<(5tLulqw
zD+ya<-)-CMe8l@4+Xi`}W2;+K#q_Sb9V9?83FjZo6(q@Bb_BOP%;>CnZ0_D#l?H{h
z-;+zam+U=$``Pbb4(}xUV}mga0?IphKLQqIlpRhG16=kn=a8tO%zp;+P281Axa2X5
z{=J~|C!KA%YW#FS9Z%&t7a;9qmtrg5ws#UT6?ZUgi)Ev9n~3x1JEXOt6o>wH3BkXl
zXXK`e)BE5i>pKLqO)O;a9JsRfU$jVOULXq2BD@sV{acIZf(=5>PL$7SzKyC;P2FZ0
zH9#T6MEq;tCGQJ%rs9*3g3LaqYQ#)*tBKF3jH*8tyXgAl%|&rAjvEhSYy_1t4^@=Z
zP>&RA{-qelhu5gTjO2U-c11XSXtTX`Ot&z!vb`5+`5_>w&QnkLf-YniU4zkbF0=Bo
z$E~sXHQu*C8fVbKPWkAal~lcJU&PM89qxC&{_abS3jHB!LS6yC)lEvi-EkpMlKsj}
za;Sq{RiB8Wd}*e^dR#O#nngml!0q=_;zG`j3jGZl^lOh=Yb}<E&|wH9bCXEl)|n_b
zj7Yfblk+mY)@K=`=~!#Usf<_FG1DaFbi>8%C^-15TdinOp^m2U?xjf2Oalw}dsAxy
z<2@<hxVm<XZ5?*l{*CWbWJf+UsuzPzJabW)*BImpkPWbZ^}(*6araG`H%%0i{kza@
zqyL&Wnap#=pUzAQ<cZ>Jd(C^_D~3B)DcRI{z4Fg4rpa7f&r1!#QNnL<Ej0t-ic?B$
z3NiV#`P!WX&#X~;)OWV-7~jqeWdBjw+L}Hhj)~r){GaX0BR3pr<zA4lIoKE{7mB&e
ziNY)U;gJ?rb8rEdk;a}2>3jnF^HRx_g`N5kI0@ytR_wKMs3CN&JFn+&-d#oiS<hui
zjNmeUzZ;u4NCydK@Xx#*6y8|)h#FM;rk!8Gz4)h+mM*;RS1f75ohV1$IzVGsCYhPi
zo+=LkO)**C7b@cfcY6@vA6oQJeD=^(;2maWM|%BS48bfrV2vY{e-yawh3AIGm2T@k
z@K29JkMz^K%%7+yDZe}e+g&Ky_W0zpvRVROZfyv|n{+4B((Z6^3i9L_UDEmS?4@p6
zkj=nk)6v`~&v6IG@4=`Y=-kmsp#yfoJ51RjJtqH}-T!h+;<*FP!vGSV3zcdTE#khj
z5#cS!f=heaar}TSffMS7xel>g*C|+oC*g7j59+(LgP~tSuQ`4u;HE!nXv|YP4HWr%
zb3q#gCcB!h8B?H`{%kvW3bE{II~?AD^c{__-G-8sx|qi6g_<pGpu<okEu%L#0@bW*
zW91NKTMOy_H9}lAV^UPOzc-=)5>)$U5V-~4+|^T%1>fp#%duU+vA?oNTjr%Bi)eDL
zhuqF>?ugWC4@K5m41K^QivvcU9anVx47%v}yFb#f-p_E2U3M5!H<gg#6LQ#^B7<iv
zj0WoJ`?|68Mna&j=;va^uwSgqO#-J-%oh1xXcU7jg1?F90Y9OBBEJ_IrJVo|L3R(}
zZ1Dre{Gr(>iO$Q)Ey{m0t#xu{n^*~zZEKkrFE*!AM6)KLv@rT;QDw&?xJ{r&B?WY}
zfM&LF!omTVAmWuOuP5}=R+X-_Z30}LW2xOos~;;ig&9cqX!)UwO;X>Tsq8KFB<Y*x
z@Ete7{x5&tYp!;lJnqWl_u$4Nlmq%-LciNzt0!5WiF52O8U8JMU5Akk+%MEpl8UK2
z_A^M3WQJD7on?PSjJtuMjpnQW+$DXh(=T|CT=K0Q_WjBDj0>1;?~b7e3%%O?ei@_q
z9Zm#a<3#7H*S{DQEHG4x{TB!N{3-IeV?YdKqeTA{+pty@3D|QU=W*{ow*;!2{W7k`
zi_8KLPad&7kD?4Ds`jf5l~nI37XLMqgx)lXBKtU)s8RilVl1B6*A7v;FX8>?59vAl
zjk82sT+#PTF~zvikNtb%BFVQF=sT>5ru!8h!#6FJlR&@?9&`UHJhh}|dH?SX+7PLH
z%dpuZQIajPf@do~#B;Mq4Ua1V4iXy;h%X1ru8c-C7}wh~Xu6`r=pDYmn>DIZ!dJa!
z@77}6T>78uI6|$3C)<cu<-G7$JLo~PbuMqw)gxUU3ov8F!k@IS09f4grI&kgAw7y9
zX5Phc_Ur}Yo88B)QE19i)}F<-Z_3Ps{Ch}0#Yu?_h<k0LwuRE4x4*mYDaASl+Aq|<
zDcfGu?Ch`G9uSrKUPssXSbrV#oj0|aVtk3p&KU%1>*v?_+OnLg{ZucsrK6RUcn&uB
zXd}47`tXzQ<Eof)MDv*)BPV$yI@cxG#C15<+kArYq2!JXfu1eji#N=>z{SBLW?F^V
z(pfqSMaHi8aWl_9j5mq4wF&z34lsK+7SIt}S2ptQJk9{s00MYNuY6fKS3xkY++_5X
z=SNTAvQXjmQ;x$-k$TWJ9=M-ISN0G&O9$xr=hy0(Un*EeXFz{rRp$=^vFVmGV&i!K
z=$S47?WTQy^J$4D2fPQ`GHe-dt?Z)>T7YFEj{l|2+C78W7u?g5-TZEUpeg}tv6*Ma
zB(v$L?(@6%u7gdVHOpR{-ic>z+mar_ZDPyjaI}D+cfi=U(soP_fV+=pKR9U$lEGh+
zxoKN0*PkIoHTN$Vb0qw1?l%uS{#AJQ^MoIg%N8dnr|*G#D)LOxBDxfKIMX=&2M|VQ
zgTsyN^q>~@t;o05GqGV8kO`72xu0Lug3wrtssUWEB}?YrPppevqzn3X;VLKd*Jk}8
z-&VaNvk;&!^KMm&t>q%E{d%Od_P;f5TOAixqHXuhZrlwhAU)N?U#l$rzec30F_*@+
zeV(?lBpB${B5#M^(#mq7b1zi}7{76PU>9jjDqY%HhH`KR&|X&Iyc_oLXa>fxvkiZk
z%R1$K&jMWeg%AvDsP<unb5xapflbmI)Ht7o?J=Iq8JbYPgQ@?82nV*}I$}n4OyCct
zNJ7Tg3hkJ;9aRS)A58H>nf3XKH8O$CAmshLpK^WIr<$kNp^{Fj7y)mz@DPUbNwwjB
z{P%$%`rwHmWHDAz7q9ArK?}ndE~=lO2HHdEt0O&}e$Iyg8o1{s1qiG4tWBQ=hXrvE
zII`d<1K&0tv@rVgf$rc#_Ta+~bu(iCol8Lz2gC`KNInTclFF1g<v5_7oh0fj;k~?$
zxJtf?a(F>Hmahz>zCb@!<uHvH!DQLAdN3Cb{N0HsHC@uQeNuJwsGhHI(KQ5ViFx_6
zQp}WiIBzkgIYB)Y?eIOH;iZ|_&cnkmQLa91*2{7ylqw+R#^vbc+9N3?I;y?~!~O1B
z?M?B<QGtCppOw(Cwnp`3dLd!NhNgXd>k6~5N^9LGfQ&8y@qX1azCpP;K0(~e^`+5z
zn(aU}KR78LLo(YS>ZK~)xNy@QALEi_<7GZ>g4B$eK3jDd_f*%Lyrzkhy*xBZ<vg$P
z`~->jxgHDSl0s&^E5Xs5y!UR8z|yjbpk#654?SFDM<r$AQM{Md$<q5BjO00-aR&~G
z#fmNgH_O}D`BJ>5L|LfUud^j;Q$@S6vSKAz@FJzO%0yY60WJ`COEE<`BJKd$9)BY-
zP7iJ~3k!Y(S$IwlkXlddc(cYae{E?T=ZDikQdrJ+GWbT8fUW8!GS(stPbJK`GW!nE
zGQEhb<nyO3?O?1B-?b)!Ep#bJATGQSSWX~Jt(|CRe_^=31vvlNIA@@<V2hVcIDaVt
zNcRM}c_bk25*!N`c_d_0D$r^y<zS}W1*D5PEY85WQx#S=;WgCgSb04jn?N9{9MVvz
z%?0_;b*71PD2AGFSSoNLGZBkWer;?@s9FcZd<BnZNjf}WOT-!}P_UZ0eWOH~X~ex6
z3}!H9A0V)v6sGw763@J3f5IQABF>&L1Yobm_>wF%Ji#^1o;&GiBJm=r5OJmjWcd(6
z%Mcg=+@qcbL~zD4#Cyve`PZ5rrswqY5Pu*AIHIXcl#^KS;GB6PeS%pB=_V8!HW#bE
z{PJ$*Fv19{9+?8DcfKiD!qBhy3q+A0I?kNI*`v`Ao#|tQ=4lB1exc0azliyxHzfRT
zHCrNpN2=OIGGmEM6XCVvghmlhm;<$Kl;FfinTGwFh=t%Pm@9*TBgjKBm21-@1yo$n
zf-VS@7|TWLq7-IQLouz!CYguwHI2}METvSU;ftHG47=!zj5u0MJ*ie;2hy<&F)z}!
zTaQFvglxa3ul}Z24}ZBj!zsXDSUMI<w}iUt=wogW1|SW>c86kyeh@Jzz8KPsYI4(C
zMH?87f<d@QlpA7hFsjGgN6u}56uEM=>_{iMn+7Av8TDM}pMA7Bjy%#8<WWSYh~Q}m
zjZ9R;S__WkkYZJBzzdWzIut4jI6B<+GD2ye*+ChW7_c4SJ8*_OvyTY_F^O|ob%YXz
zxW`Xo4pkW_sq)W2+=KaPb7={Plz&InbAHJZQH1~@D;KG2cT)TgJfm2UB6q4jr+CO$
zd9#DJY#MVMnTB@JL3WN4a|flBmOlc9yuV^FKjaw*<f$>&EyN}@dvpg}cUfb`6S0<Z
z?^botm{S<4(v>lBPF8a#iLBHS=7P#9@6aM$!x^yOF7nJI&lwbXIO0~AEv{g5x?{N6
zn|_jpDLC6(ODvmeRlbejI#bV-k!)gNkv)_p&vaCaI141r>4Mz_D#JQ7eF(p|DCpH+
zh7&8&E|OB@T20Vn7-wN^&j<aR1Umk*#BVc;k^^HG5Y8p07Bhdam{K>Ld~E~@7KY8h
zP)^;8UH<$_etBMj?Q~9Fcvb?Q#4Or08PQ*RS%pHk{5QV+ig<H>tr#Dk#5@U6I&dN;
z-m<&~)^7=(@I-d1GjSE8v}YL>=i-y(h%Sus1XS=c&45;MW#+vbPQP+3P{8T7Dl%jp
zb{{0Y|DDXQd-=*xMXkt+6QSi+k~_fpw&((wot&0}*W6~#&^e<f;C!3z;(Hx%zHJ|<
z68=sV$uxac<y;vc)9N?qz*F;XS)$E!zwwCEDapVyD7gToO9xZ-yePt&Z*^oLT{f*|
ztf>fQ(%C#$WRv#?2JCCPG(zO~8U6ihg#CR2MwYmjZ3HO+lZ-w0K&u&;WR()#pHOQA
zCcY^i-G7K_86tkodmSin3Y&}ncp?^m9EB2vP*0+}K9Iy`f;C=vDH*T$WB^HtB%#y@
z5}L`iif}xp0G=da)CgRn_$i$zX6Xu_T0TW>3?`Yqpb><0(XWbsT$+%%+<}~O3`RAD
zz!<#J@k+hFq9L@(;QqQ4t%@pb3_JDy!fb1tfoTw?V_fv557|_K>5vT86?cQR?_!9A
zTHhr$k%s|lunu?ycX}N-NkaOiZ?A0@9kZBK1Gus=yDA_+Z5KQJor&eFQ~-csF0Arj
z9#>H9yWpm@(jVBggPqFEU5-!&AhM~L>&9h0Q_z~o7AIgdlblUZrk(5LTovoD3NoxV
zjmZTj0oY0ta2bw``T$ik`*k4{5KW=R6<C?bG(e@z|BByC;HL*f{Th-GOyOmMfwhE^
zM%`HFGQAn8&1Ejq0aQ^_04jOYU{x{Krgjt6y^TN2)b=(b8E9>+?^DFMM+F+eLCJr-
z>`%UT=x|9Y)`OT|iQM+4M%5u_wz9SYm|HKn?2oN2e#zo?Yy>gqId>EUjywuO${r1@
z2ccLvyzI5Ch>GCM8~&Qf#inKyS=qaqMzb-@L1Smx8ivqLvNZz~yjv&TUG=XocCxa}
z;%CDxH9(t<W4E?@z3g3S9I_V8!f0o0nZedfJTeD4?G*ph=vQj^soJBA@K?QCDh9Q3
zXX2T|&z(YTiXdkisM=q@`IRAQ4lXxN)f8Apg1Ir6RG-LtU-cZ87y!UZh&BbTLZh(s
zJMETIXaXxYqE!P`L`1m)aqSPG11&p?O8MKE7NPO8jL#$FC*GQa%ggvQfs~sH0BBK&
zr-8z}9DiREtym<gB649R0l;{YY4}bLx1?9RAO8ed=K_o|+x&mv^gr;mfM86HvIuyh
z{15Og!Y%A(Rak&Kky|aooXCQdnMlLxLi*Whmf=m=hL)jC<rvFxrEho1QKxfJ=9{J$
zeXZxK^1C%gSNY$Zgl_<EOJFoZRv5=>0&mL@H-mI!$ytIsvo$ZVmV<+`Y~<NnLU8iN
zds%`%%V1ZaEwN$!b(MEZQks?z67r}})!!|x%Iud#Fs;SjM}Q1N(U|rR6LZpxspAo&
z?p}@_m1kaTK6vQu6GVz=O9MUxB&|5s`oEY^Z#KLmlonk{iQ6RCrJo|dqX`jOj>m`#
zetb>VNBHZW_v*);Km37noN8){i>wTSI_>{`u$QKV_&iUB4GssTq4s%b7)H`G6&|zQ
zYyEqM*wzj!g4M_5=tmMa5U#Vp{N*0d;3bJDJ^H84-@wkBNmBvigkz%gs#9&xo76oc
z4g~Ta@Ju<jtb*ul&BrQJ)J)CA_7EykdbXC^Sg$7`lnn(2>lu<hJBIb&U?a`1b{cdH
zy}-Pmp0A7@KS<YL=!Qw(_T;{Fblu=2Fp(t_0cGH}Ea0|qKkY{FAE4SkDdd8I5slz0
ztrtE0VEsQEX=%UEJARchnB5IX8rb>-ar|UQWHo^W1Xg|;h&qgA#?X(}evW!U0gXxg
zgP~-q!c7DTAP&<AEe)EdsN0HTG>sOg`Zl=-OLPx4&nEsU^<{>c8YjO9wXk+6!ixRc
zc9>bn(FZS9ot3O}-&z#4N>>9bJN6DkP1<I}oLNiD56*GN@&HRQf}nyK@qbgytc9Eg
z?MAQ~w(t!!e)}3{n2NQ2BOe!SnHjmmT{mAX**&bJf&6?4*6MHiR_9?Kr?^?iE+w!4
z`?XD&%d2BX(gJ-h`_7zBf`Uo=4Y_$gW63qlNqQH3i0ci^1lznCT9IrG!Hli9!UFV3
z#?TuSe{FtjRfLuf77g*W!@{vS75|69t`?lnUv4$V>D?aAx0S@X>N+khT*$5D$>~Mh
z(8|&aJ*U%50Lqxm5;Gm)%!M@Jw-&3D@!+1FrWAst6n?KSHH1IP5>CvujS|)hlh<zs
zGioqd<fU`p=E8x0cX2Fy`nwARH_i71QzMXhHRPW%aQN%vkO9p=y?XdBneUL(!v?;*
zP}2W2xJa9xTAXyObz>MIX4z-hg&4~bLYDcbIG*hd)n`Fe0&X%ES+t3^a!;}}L3tUF
zNWv?K>;suagfj(6!8{H8QV<^>!U#!)wZFrQg8PJ7s6zXMp%V^GSW|?RrC?>t9t@V_
zrLhLYwv_{=57kssz>ouXlL^n66jX>VsK81psD_ma5r`(@kA?9KYs3g7<r-|*k|3(P
zMR+@|ujQbh8ic`PN^HhY^0A8fO~}|)Udj#WsMb)GzU4S^WQ~G3EuD%X7caF6%Tmw&
zns{1HMY`xu#b|76qKhXoxY<ltI^KBNT<l5KE)N(~giwFUL#kyK;>Vutr}I?obH`@&
zS=WFYL$kO9q@vgHTU0?7%d`Bwy;PFO@2w{)m-w)GFNiQ6E<;bmD9{wwjkYB6P^btw
z8vaYCxQ_ePqOKy0z!s^>V_phh9jQ)ht}<mQP+6!7tBKaCDPLHtiPot(S8=u+jBG<e
zAGn-<qTh(AI)ttDT#fGjDl81WwbU7@@6>stBCN#~Qia}CUADA`&<mGfb-5hUA!)S^
z$Zd6LRk9+PKq9#nf$UZ~MC;|eUk019h}ydjoSbPUIh~<H%`z%k&m5#|F(a)|&7ok~
zlRd^lP(!Vi@?s)TxwfNdp_f`Kd9ATLvB~$67ygo)u=!dwpAJEGcT;&nw@8`bvxHM`
zU&Z0=E(jJfjLG&|9lVY=kx`p=vgNU4yWdqu#^@55zJnarJt&iw94FyUc)932{^-M3
zGx(g<b`4iu?hJ>gwRUf`-|KP%J5pCE=^?tuZDQvs*4d$#CvpljcyL>5na(0LTWs8#
zRH<a?<;zj{jwUHvM}>QcjSfF)?lglIYRs;Mik;NSK&r%z1eZcO9t6hS@)VzTeWDh(
z!rZ0PHp61CpSU+hOA*o7?lr6TXE+p9Ep1T*t>(x7o!&;|Q)GHiJQN3-*daK9!nuu0
zTa9UpT%fIn0g&}If*dPijF{Vi1Vw<P$C%_VA+nw!)TebMA1i6N3kB9Cy+G9<sF4kA
zGnXnQWMeCybU&|60-7BTRq_-rx-kNNI>&ckI-wKFxOyIVy(~ghv&WP)qK$L9q}Q(?
zelySXnVTY89K}!!Gk6J~-N|v5U6)_bCHejaWX2R=a85))=1knsSgIhQ>SOWHn7JWv
z_5KD##_q@rB!UnL(8Yof^U)K*aJ^t~>SO-kaP9H?8hv-f#_7<Q;qe9=gZ2w$Rxtw4
z?zH+PTN?NotQV&q>!iL2>!}f??;g(GnrYV*7TGq?X|J=H2bM%fL4S;KyvOK%Lj^rX
zE%aHj<7yx{)ioRGDzgbP^*ngi?R&wE7HqL{kBPZ?tg3nob57r_HIo#<an%x#wQ;+(
z(A{hCa_Z6}s4QPw|NVGH5-SRmXBs-Wi(*z0?u67fOpM`}qHC_4x~U2soN-+etm_og
z7q0fZsaIwpYDK%yY}Ubmvu^9AcSs<=OWT^WyYPfO=WIm^iRh^Ci?8qt+C^*^rFPlh
zHyGH>XuX6U3<}=%w;>gFbzfDgb5ZYpUtd`S6-nY!uH9A6fz~bfi?+9%a5SaMktBSg
z<4i(nC3LZ^-pNj1d$z6h?MN~VZ-k);P41{ctkPJp-l=mEg>ijOM;$<gxVM^F0u3qT
z0&V2P#Tf%e@bsA^sowoK;VF{v49dcMDa^QbiP>?$5dDz=%X$i9rnsYFf)@TE;Gymi
zcV=<ugl+cZ+M>=fp68LaXIrwUw(Z<_wSEb2cFG_Ucl=c_#TuuK4c|GH<D7fMk;Nc4
zq_J!)bVpFK=V5g$_zx10n@VHT@qit*>ixGh>?U_83E&?*scCD|iiXcZWI+h{mZLL}
zaqq7QRzxrVp~Mta`eYfmyv5Tqn15!zJi9Z?&Ba`vZgMw2+1tAPgcRVTb^Pjg422?C
zL$$y3BZ5ha&M|!hYRsX3y<P9#4xCzI4?N{^@51yCgB5XyB~mT)9YehsU}lx=zK7O9
zl0s1hiZ|x)lP1H^J{TzL%MG7dRzIW>X(RpaBzjAh6pvKI3p^VJ)@NuZ!a@q9+4T5-
z0Td1E@`YrJa*Y&$jPHC9CX^`-RrSR9UOn=_+Olj2&F{|Pp7tO6637y<J$Ta-3?2+7
z808!rmzNMJH+(^#4Z1ZX?C^mglIL6Z0L~8pD-Q6JQz!T0M%x8?GL!J0=<%K4x(r5D
z#UakQbR;<Mn;l83{q2D5ezil!ov~|&O(jv#S$VP~IW0`Vgd4mr7%#~|UG{~~mV~Jb
z^|B*r)yodpu9qD$F_KUqH`(6{_S_Sl+*f5nc@QjK%nD*!hO(722Th^WSys(+&K!C;
zN0>#S2a*^JC!s;?fy75T)JHnnM>^U^I@&`z5e>rB14{}u8_c4;#G-w~0;=)jgT~az
z15GuCe9-twih4>)(qCk7y@B@QjrQY>_T$aj_1l5Qi^b!5k{F)VSo`6Lo6hk-q&*R(
znczjWbue6bP4LE<3Jlo6#Dn%OL-$V;yhZ}y!<N_KuB9h#QXkGSFG`vd(VWuzLBsJ8
zl{Z1dL*e=nM585H=v8eK%qYp1kY<o^W{lrbl=ovv3n~kw@cR9qn{$LBSW#{c&y-PR
zG)%`@;XuX(CNMKc$OXb1E37%Q4nQZANxCHP^=%D*d=npp?Q56jMr~#aJ~Q>2tLAep
zH&-{)fB)P4RXqHF0CPb=RnJ%nM3qeI+A1#6+5QV)<hi*qc$9(5b=5`P$i%sqP5v;w
zWPYA@dg@Vz@C~_&6iuU5@J-&K%{2^0uP-|h%q|3wV9vHgC{U@N27U{wXpWIMrhYE*
ztWe1fm1T}zs_%P=$VH-OZatmqqzwAR^NA%Gf1p1Gn85TfR4>O6e_#wIf=P|~E(qzU
zCU2`A<NnlgTv;x1c7tK+k9~YoEj%r5Xg7<3?kw6@W#M_oI1yOd-d+!$D~?Q^Mj#&)
zM|Vt~*UoIUZ46#{BtO&QYxmXk-F4hpndfFN5rl`<t=95p`**xreU!9s2+?t3^0t}y
zZ0$*XU|Aar_5u8K51?-c6*hlWI1P&$*%=bdM$;yl(&`@GDVqk`N$1H*)oug|U)(2N
zDXaVUOU$?^Cts1MjxM)PA$i)9Z@rM8w`Avw`^1tL%N5<JfezqK3;lA~OIV*+{s-u-
z?AxdpkOX+zrIp)`n=lZD)i(;KEV*20)TY`-RjW#EZ$=X{*;s&$Y!k9?UqcdYqIRXh
zD=v)Cd^6)Y{J{6k_PBMWm4p2BL{FbL>qm&9&S(KG3Zvt!Lt`n5b|`Awpglmp*}C&n
z+WPTh@%zv4rTy^}QlSl{(viur!p@&I?}%#LHI#q5yqv+}7bMo1$vBG21DcJhq#(Oq
z7b$#zkgVQJ>5WLU0xe$yonZIkh+l&hslFwHj#lgI+ocLo{91;r@LuQM|1K>tUhe&^
zxlQUlz4<4%um){QUbuMQXmn7?XX)&s$mXz#(7L7yd>&Fg&xG>}JWfTBhfG$a+?6?g
zWgxyyF)Yj8SnZ2u9U5n0knRxXAs*WU@?7^I7fC}Z2+YQ^g~iOqtOL>MOAz{i)e)5l
zgLAYHe&JkNptf@_6U~{;MMJm;=jT)LnXXsDO&iN+3=Wss=QD#gerpV2&1RyTCF4Vt
z{~~nT`YmHacXGm~rc#dy61HqA*)>|!vs1iREj~8M4JhrvcWnmd73Sbo+ID!Eeh!v4
zqp)KGw%_mNiOprUmR(4|higEkh5ys_hL8S7$+>L2xEV5kD(6r3+{Br~nxI!s`n+jq
zq$1D;Nbk8W63L&Obi5$fIGYxMZ9NSa+j^23uJv->GA`$J@H#hK`_(9rC_KX^&WneN
zt>3GLPC&+J^A{x{E2M~V)eCsqwOVU)qc#+s{v%_+#vhZ|$)=NLx6O8E+b<dggsm75
z(Zfml>nkv8gTX;BPiA7`aL&E==yi1^@Ymzb<L;5)F#Lw^9?-*=`_&cjypoa_<S?dW
z8l^DHo?*Q8f*s6o0yzRWK?R>&hu}9*6Z~Wo@Cn5uzn;r)zLPB~o;XD?f8^EA4clHV
zumAb??f3lYZxF<UBA;<O;}l}f=C_pO^7SZ{pFn;;kt_#;%Ta^#2h0(LnY}Fv)D&`I
zc2S$%{qcEp)2^I;f!+*Y0RU#e2s424l7H;6%IZu(^nl)1loA@S5*Ft0MJ&GtOiI1y
zU^gTEAv`pU=hb0Lx#4qW0)PIHLqIkbF4hKU904ZM6u+ay04;3L)6}0@!DoRD9D6e>
zxSjLZ&Us<yys&d#SUK-wZyH(QBOnS3ys)${?Cb|szqcch`dblHecz72HUw-P0>l3y
zi&hMTtp>tY17WLyu+$)|N1}}jp|E9`?HkgHLReEAQXa_?Z&187AZh0>I<RBvp@Eti
zuJ{o{92i+##2ZLqET0>wdKwyZ^EGc$3bp~f`o^A%!>!x`6otKC$Gp{?<0Kbla8%!+
z9F(C^Snwp@_9hvL<rXLbkn1AzYNWJtR#oIs!m5m=h>>h(;BaSjsbXFT)>L#RiZ=>N
zJy0a49s@Ocy9T7*?Ly#9o`|3^y2Tj^O2{|1By-tyWf#sGp7m%Di@M)`rwFyXt`6>W
zHd^cW-t^-XQ^rBH3$h^T4I>kh-iR_F85kh?EbV@;kM4C#1BwiG+XU-Sgm;vP(wkHr
z1H>6&7A&nf-2mP0*9P!vk(O(MIl<}pFrZi@D8o5EF54y?bxV-)uv}+a9QRdyuGJ6*
z=+5kKf^Ugv0H0S29)%VToVH{!I!m4%1<KH&g<2KdYA#hsr;U_B2AXt-l`6`#1$qNW
z8F)HsUdMso<o2UIR8%2t8C5ZJ$Uv3T>%yd|__*~@g`LX(sxyW@t9BX^^$VYdM8Xl#
zP&w3;sb8NnWEv=vnld?y4m*oZIEzj=i%z(TZm`U1N;Od9F{Bdiyb{j58ZOD2at)RB
z47mmiwWeGSW5h0F9I9d(atVie35R+Khk6NjdYvf%8<Gi!WarAlhHSzm+xcR#5nm^7
zHe;~Ot7i5Ym6QCgS7YYm+2!f(QWesXT^ZDhP!$vHw_(TaqcX4~sp7Sm$y$P9K^dVs
zFgXkF@6lA-Mas3H-HSLn(D}h?ObU(*fi%$mBtg$&T`L4qjIspa6cmz(;vH`4m}*pE
zN@%QOdoGF=MC-s{cK$GA>ebH$T0@R^2xR+F(HJpnj%cqh+14!MSEE7)SECN5K6Tlf
z)<FZ-7#hBnHE2Ajg!yGXCRv7J?oICtPVOtkIH3zH{{V+w`=~P~W%0Hj_h+1thKn7d
zJgCBNURvM&^k3lD?JWEPLdi&Ce}`iK2a4<Xj+O7#DyY<Iob&V=MaiS;4S4OZy+7F<
z+};4$(GHv)wi8cGWjfzeNXdePk}_CUzpAIk*z^L%#=E6|5wSbx8XZY}ohT2df#>2&
zb3R{UR%Y;{dTwk4R!XYd2`^zMTvqdV%gXGsW7TYAMEVn_x~|csBkoQ<?YI`s;_9{I
zm13f!r`5GRYtPfA@-+yXnP;VCMb-CP7pwz1kI)86{bHV=6pBppH=oVljg4pZ>k&GV
z#7<}jG)XL1ELYh~s&>ObN3+!Q-hhsgjmG5w^@VqT-qM-XHri*_I$_|;gi%jhoiJW5
zW2ionIWeStDy%nhwik)y*UZ+5W$QGSUgKvPk?3hOa<1&-ysTI9y1!bdIyFm2xZF)-
zJ;ieU^YU}_ab7OILCWR+e)T#<uZ;zwcqXgY9>ksB!v;!ww|iojPMz-2Q^oUMJt3$`
zwa_LNWA<V6q+zB(sO!WXo9M+LER*Xq<MZ8~)|)iEUuh!Y`)45k(U|zKH{na_>hpgW
z!4s8_7Mufk+Rc<}Z-OushO>Vph+IAj;_RYinJ#hra#CuIL~geAlKuKoojMjS8Xa3m
z2r21%p1$YpffwX$M%)312ixFrNQVRDc0o~6mJo<AVTtMqTL)tp2+DA1@U_oV9H(x!
z_yC9PEAT{xfH}uu=wq@hQ!-CVyK1F&5T$h@Q?AvXMo}iolE!1fD2|XP4v)i^-JbpS
zzI}?uub`2HQB9W71;c^h21&w@5}~_0LF3t8$lB{n7^SXG_sidmnet8}B=!yptLwj8
zT~YfiiID7rNZ3z1ta<hm<hC4>(Ik^Jrj+BdpxxIYv(%w;dd=p^>>iZSSWVEJZ<JYl
zqb}yjkDBJ2ha0p@cCE-F{6`kqs5C`>V@Ov-i8Ku*4JrcpsGW%&G^258#RcXIZ6IIr
z>p12-=ZbM+-ZcpQd=OeT{$D^G@<><2)4W$aabY}<T$@pKB-A{Hq5#Bn3tV77q<euW
z@=%2a-#{yMGo{W~xKPO{+9XP?XUs%^LwA+BDqUrJP9<u4$=5d&GA=B1>JX1_s`d%d
z%JX|-MtItb5ArK>E;cu<$SW_mj4(_pi8nMZ&C5*APf3l>Oi9fvF*M37j<3i}i7zfm
cEGl7)C#c>Osy;bCuOu_CG!+2k(Ii{|0L!I@g8%>k

literal 0
HcmV?d00001

diff --git a/default_8682400841892545181_0_17676.profraw b/default_8682400841892545181_0_17676.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..0e4c43f76a21cc459c917cc3b381bc3297ff5de3
GIT binary patch
literal 418304
zcmbT<c{Eku|37d_hQ@2kRf>`!MJQ7wWiE7!xFSSCW->&EXrK%?ifdNJB1002+{{H>
z^HmgO)}Y8(`F+3Z``NAaJ>T_P>#Uc5yuGW(+UL3V+2@>lU$5(`#|2jpH>Z_#O#kyG
z^q=q7H~r^7{`0L`_<#S5_ovSz|MNH5KmA?#?=Ny9^>AMB%1Tj%I?X8P|0=8g^S^lh
z^S#`AD<x{quE(KsFH@0^_?spf@dN+;N1P<aDandGzLS6FeYyE}-$4F<{@MTc8}iX#
z7`dFhCM5jLBjnJB{%4%%&;NhlvCiFFgWKFn>t~Te1v(wtsVvHSbpw%O1$36ft!Evw
z&M+fK9O%Sd&CA!Y3d=WGp|$<6^&FWV#Fq~XCb&!5R~y>HFWx~;6VMTD@7$pmtF42a
zbf9xIWA|E?wA|~+@dY~D7ys<&(BCkR91_r>p0;&ZJubo5et5XdZ{>cDI8KKhlk?=s
zi9Vh+pC^$c1avmp-DuJFUUw5YM4(gp!RwQ5PCzzt2ten0S)ItVh2RO~umhdKQgOSp
z7dA@s-J|;2Oouu%;dBU?oY`9jI*tsReL#*P(3vBfUog0K!4)}fK&PftC}%Xj<v4P3
zfzIV`4=pv1hCM~jAkf(pb>HH1oaI#1^35?yx3eA*=l&y($+^GzTa3!;<T~UK{&O9{
z{I&n{Bi7;Lt6V&geQO(X*gxaj$FPp3@Dn*1v&K>6Fb%^Tg-Wku9|P?Kk+T4FOpk|@
zKWyDWk?@j8srTCxJ3WGLJe-)s2J*rr`5%}cM~?I;%<((GHJ7wuX%RVYK*!{vkWdl7
zp@5)qxxyCD&MQSY9qe_dP~h05Ob!E4<b(m8$nG7E%G_h^$gu)CwX||!X8YSV$Wa73
zc~*B{a`;*jk7+%ZPcCA5O~C0eW9D6>z1WQH)b3Bnq2pXXScl8xnSP;b>>zR|K<9|t
zlP{W=Z|Ne31a#D2r`;6!+sKa`0??_8v^%R+$A9T1UsY}1`6LfI&hr$z4lQqMbZ^_~
zOhQgB&~a-y&z)pRw?a-Z&=JrNnOb8)&_@m#=&TWWwo7|Um>_bbfli&$@{z&Y2Ul|`
zZgXncwr?LhP6zXt!nE;G?goaU@?GR80-Y?GjFS7_EgZ<P2RcT4({E-5GWC!{1v(!N
z<a=3JpIU>QCZLnM_JvCJl?4wsSD_?z@h*P6*B$Kh&KmijeMWKFOUR+&91qsHlp$pq
z)b{uTa>9U)puoMC#MpEE$RPop+;Kih-QU(j$RPrqzati$uA?`bsm6tDf2Vgk4dT4t
z!0sEj*2~AgYI9FQPC3v?*;=^ccJeN7<WPW4rt$qlTw6!Nqkg7H+CDeSw#VsUuNSvo
z#S2KRRhLALIM50EQA{^Kb?H8G#&O;sV#m`n_I7R^VKf*yxj?5y^m8WX1=Aaph;WbT
z4?nE!flgn>F57$MmphOn4s`0GJjh+Mde@ONj`Kbon@`xQ_Noit7%j-j1v>SGcl<nW
zI4vW`9_Z|H_L+SmDf@a$-IdWf2YWZXuWw+Ft7ZAB<c)+Gb>xiWeBQx2D*2lYw9NzA
zk%Ra73+wdR_r}-tEc|oqf#ca^#}QH8(eMk6M;z!7<_T-0vg(u8)vg{9*3%mw|A_Co
zU^V7Ga~q+f)%UQ&Kc^h%1Ph4@*aW;giN+HKbcXzRZ@73AK0po`=p-6Fub6vq*A+S9
zK<DYPiC3&w>-&jkJAGakysuyQfG=n4`njUM%2n;uf;e)@fzHRkaoxD4l}*U;1v)EM
zdzXU!n%xcF3s%;cW!+K4>0s{@eyOtl_ImI1&tU>O*PoFzuSlq6q46{g;L901o}c`?
zs7%Uv&d8wvojUUqxr)8iSI8j)otO`9x{Kn0ztU!S12~yp#R}ncu;*zHn|#g3A}N04
zO!wo<2kV@@<|6izv+5RdXh27|#o$D5p}{0_C_v}j#1rS3CGmfb70{_)@jmrn&5T8G
ziOS5D>WZ(@I2{4Zez>=)a#Y<a<|=ZUfDY^W$UbBJtX0Ud!a48Q@tAynv)km5rwDQu
zfX?+p0n;nwBwplDaGs~w@i+x7&*q*@t;&k*_utGHa}>I-4lmuTZcY341UY#3RqT59
zGr3*5vu2?mIZZf^3+uc&<gzQ)v5K@!DzrVd-L8*{)4}dP{_{<HWHp2JkYfdObjoh~
zoscPRM2<MnvEUA?4yB(GN6s|P^@BaGj&D1MYF?bz&ffI4E>(7YWjWB{ZGRD`JwAL4
zIl(|D{%o=v5BukB$k72hTUmlm_bWWTjT{2d@jo<?XJV{#4mk{*`vx{=^;!-=-$S$9
z{day!nzJn(NXO}{!R%vlp)s=)TC@`61OuJ(^n|tz{uvI)!Mi_W$FtjM^Dz$F$5O~q
z1CEEULuTF2#o;*Q2mzhcs^=9<rn=W9lCE=E2(Pkb!s%e|>!hE~e_K#-(M1mJJ-+KQ
z*5PZC9J_IzgMpl2p!1AP##rk1hk4|v0Udb?jir$mPeTq9(AgnQFx4^G-(=|4-^t?o
zBaQYBUq0CVS=;eqEVGQ05^^X&NAy`1&8B6g3prLm$HVJPu<g&6-;g5>bk?<YN~QU<
z$RdXc=;$Td3!LoM*Lk-vC9%&l?FhXOU(VS5=R!$?A)_|A7&%m+(;+8oURR}>f*dQL
zbC>*t$7txt+`Ejj+a>$n)QaPDu;<sWH&^-6v!XvBXPkjAAFOkGQBNqPZD<BLxj-jK
z)Nq&h<q&q{*aIEwx9wdl8N0oZBMx-l(m&k%!(z~|ZkGkySfpw7crPrUcAtUG<>T}W
z<m3XKtp%T}zt3BqLykSrF%Y(kPa0Sgj2v;GW6L3$erno21Uch9uzajH&ht2wT}zqS
zLVm=mmh&eUr-MCD@7|9Vig7+>j2t(h^Q7WI)N%W?v&c~dI-P`Sm#<sbKSmA{(COO9
zl7A{YH5NHd-S~3G=0iw2YA0>8^|0|RwrU=)_rnyRGrsvpz$Py0L*$Twj^5>?qbXaR
zQ;{PCbga}ADu3p0x`UkYE?7Q#!MY(23sbC-Qv`G#xszMM_S#<09Mjq3*RG-Ii_^hg
z-|rQ86$fVMzebJ@(E0dxO_kYBjcdpu0-gRaZnu{Gx3Vq;<!4<P_ZAuNgyrn7IQ1(+
z<gE#Eihzz=iJ$-4xA$U@;|p{~^G_JM^hm5jjvCOhX%_r(L)tk9IqX1Z1J@?$na?FY
z%m;4r*KOjSqj$h^_V#g$TRmdgj2tS^`DmG9eOWeC136Yer-i9+T2Aca6mrCY&LOUI
zV}HGl3?OH^9hOhxZrb+2;=#+IB`X%+*_$WJfzBcSobTMl30}wv20BhdcjAYgW%nXS
z2k3abN#7^(*U<nu1fVm0Xt;Y*z)&!97<5?9gRkx}M`vnu<bL{oYuws<E*<Esm(N(<
zGjP@hIrczj6JNTZB3WV!a-@MyP#{y)Xm+0<au(WP`IMG47YnEvJ0ph%bo7*LO&2<b
z(n*nm9>mp`-iG0HSTV1Y=xjOk!?k|c8aZx2M}7S<9rZh}dyzv1Ix3$IyNLL-??8?k
z&`~;1chvZJxjpB&w{hZn?eF3^9qj8ifyt?d3n@{y$YBRM4J<50j%g~>$Qf_Nw|=nW
zaT2rBe==8Z|7?H2XJtab^(LGS_I^WFw|XpjJn;l_s6c0F`{^0py<{Ea*aIDlihetG
zJ;LSIg91OC6*d_t;&iajr~F@HK0J17p&@7CExw$w&gpAyNrH(2=aEwmblUiPA2{#J
zC_;`e&`BR^JfJ=7I))rYptGnmXnFb%X_JN+`Do^cRlEx=uzccZ{iE4UX;R232Rhef
zaybtfs=q;wFVNvtyA|fxr?n3`ia;ks;gwM_W6KfbEHuONIbnVHk^Rc(RIp0iaG3sm
z&T^m=_s(CzUaf2tIle$A)hG6VNpM9nauk713FVjNg)EkT&cYj5K99tOBw|~7%+Pqs
zfsR{A&N@<j-r52I!+f7dojkrkXM1NGOZ1=T+{jS`I!f=i6b!^WMIvY6H7uX^4^CU9
zPdjlSryS^{nS}F&?bpjejxW%;Ci#54ZEejD71j=iFVk;cD&lmo*PS$(Vf`%*zEtF}
z109_f5w+QK-L=SJG~vq`JDw`8(NvKh_8{cs0-du<9!2*rb$>*TFVJy4_eEB8#yn%Y
zhR&ggpXEh5I34WkKP>lF<gL$SS|Nu3bnMyeOOm~({yB_Bd^uys<F1vG&FK+(3XLZn
z=&WyzJ+;n`DHb{QK*#M^!B(g1Ol*&duB-?8J%prz&W(2#Ligi|tB|wM0LzCtX?tI|
z&ou|+(14EE$7dY`?|Wa669#m8A}5`E9VF(FLjpSFuhJBIw&$aru7N%!q>L^i(BWY?
za2Uz7UO~=aJuK&gqav=a9E)p_lM8fu%IBJec&BTS;|6qGScXrZdHZe)auk7%!nW5^
zBPZWJ^&+hrb8Z%PVZ!NPpD#|-OSj1_JrhRGU>&}ku}<;5?e^E|r)s7e;@v&DOMlRC
zI@taB@6A|d&tId>$e{q8;+hzjU6BP(kz)mPR=r@GdhqmcHFBhZj`i4A<%6`oeB>|z
z9k$8!zM;L@>!+Qsoml4G)IzVtH(%K2ookw2&wiU4=p%;$bedG&n)N1eyhjcR==@my
z;`_OKNAHF5ryXUj;ngAl9mxqb{gKAJ*T|vQ!1Ccet;;9iSE`O23ed^1c~~`>)MuLc
zwdCSf!Lb<<(DDC7ShOwrs)if_(2;WTex%o55P=-}D_A}ab*+w#w}&6!k=t=UB6RW(
z1*e1EH(YZsOrMI8l|+sk(0O(Hd49{-@Ok8rfX<ik?n2qk;y=x=Toq8aXN{4@>0s}F
zy8JXYz9|qniJS!*zMQcRtJ{0#r@yvVAcqEYd>dbU=d>F&MNSydSy{Xzyl}_tIdVuq
z$7hSXQ|srIy-GX&Z2R>(<tGuRgWbo%rP-4=cW62xhf$3$XRIU1`KWBd`5iBEs6a=#
zD<)O@j<g_h$Ux^#Y+y_u<4YcLh(PC4PtD%Jv8-$xnZYLw`ndv(m-zC*_J3XTbvYQb
z>%<@A6ak&@a%~pu*|vL;69#m?slAW=)>a>h94nv`X8QbZ^c6lW<R}82b_dU25`(Jp
z>o}(px75z+5O6x!^PTHjOW2wxV_wK%RN<R1tkbH{Rm!3%w;nm^KxgFjyZT#7WCC*R
zfsV(JSh?!cS{CF;10BNNlRvf85B=!wI3NFzqyEQ2CBA&H_nBMs6t}uvk}5?`6VMUA
z$1AW`bW{U5RG{-xEimK5ea>Ly*aIDx=HfMkm9Q_!Q3N`rBC0PeBOG&Om?BTmWM$8?
z1D#E|bMvD`c6P{NynxM@(~!3eEpjmyIk`aRyhd}?rTwvckmCz<6vrH%nTvVzAx8)3
z{JCym^~to8-o0<lhO9{+Rw7OZd%pMRWT~7c(j|~H_#9u(SSRk9w^uVq@NeYg0-d~u
zX|kx^?e)lU13E7)cVCw$*90L)5$N2g_#U@#>bm)F56|poL(51eoDO#1FkQK4G|Y5P
z8#(j}d^uws`BJ0Oi?6GHASWH@TuGo8M{d65gB&-YQ(hjY@v~-l4|3Fij-h+RI~9?e
zvBy8&Ijdu`Hj;qT!9Eu>y<R`+{w0(LIn(9%a>hE%zRva~yJ=R)p#z<j4)UsU!oa<4
z<;_RrX^q@PI34VL)X-mZUPDpsPUM6Eoo$u+N@1t}x**32=$!ktb#0IGT~>`)dO^m-
z{@;o?9X3o|!RgM%kE6l#T;zxY9sAK&tWlFO1IQr)9sZjU(et7D{IAwYu3HnHM`g$9
zVE03fXFf8Ae|PgChhBzn9b%m<@?($d{`RfNp#q)IU4NUt|91Ly@TR@Wfs(2hRyZB(
z^A7v)C8B>=XEt(#fX-o0#f!W=o6L|i_zYh@*ztJ%Jt}tihED==(t(cQ3)u~py05+?
z#|r2yYR>H)4)pN6?6d7v3cC`k5KafX|A^;>1neaIxrH1ipp!2mt5Mt*lYpGTQhYgM
z$CIDVWGEA*QHvZJ&~Xw=c5f*2YDZ2w(6Lq1OsV9Q-maeMCC|R2u{ao~gFU})I(d55
zna{}~M+fM<+q&)d6j|2>IRv2d@SEMhnfqx&$YDIiH(%J}ir3V9xpZ~$G;-2`&X`Te
zq_FC{Mh=$|;mbvv#_fR)ajk($SEB7Ka-@OIx@+wVH}y#Q$XO_X<#Wu>edk}zMP=mB
zfR3N;rMXURuW;mq0UeH#mxoSPwW;xF-Mf?Ry=j(&)4|>+?7b+sMA5u?4msjL=lIpz
zWw&}BXCa3P=#aV>DrTB%E+B{T1mApNk88_iuEIiz=VQnz0y_7y8e;<e9(!#cP!rQC
z`F<n}=&<iT*0cJlLJV@OfDY}Ao=N+wzdMnm2z2VbKARmmCLo9$0?_GPn<`wgeIGw^
z#*1O|we6JY<5y}&$vPz)_1FUR6lpje?B~HcK6=G<TKuUJa>{`Y!QtV4#q7ES<P-s&
z)3a}nF6;~*MNTfzxuBUoI(eX_{dxbzx29*qi_&pA*nK|Rwdkx1<6}Q^?19dAVGq*F
zrO|NYNCO=iuLui~Y{z`$EEM5eKiK0czQ-lTrq)774h`rW_$t$9eRqEHJ$t@sWFtpn
z7)}TK+`Vp<3Ri?k`y1qtfzAo;smY#eDdETw2Re;APk(SXAN-kB>7NoCt)sM1h%aaC
z{WEit=Vh<Tj8Wv2105$Tk-L}bxkHiT3v^5zKOH;bBrm#KfAgz$rc;87I34Wz@#5Y!
zl)R?z1ag>w&Is4zn01NbG015uz?U<2Jbw0ziEjsQUPcZD=rqq~xSo(Qdx;z}&?yMW
z{6)^Q{HSF{ua^yasVaoi!JZe}7aeB$l-B=6&h%q^`Cy$#!|h+$zj7Z#4h`t6S}oS|
zn53|R9176s)q9orI=77(IaWYtZ<DcO=Q2a0t4?7ng~#BmG)@P5|6^?)DI}8UFMu3&
zpu^^CE%|$@*A+Q~`S|7wJ09MzCIn??Q3vFd1D(K}^LziSnW#Vx1?VIN4$z5`PnP>!
zbqDNKhLi1aI@oo%^Q}8?!_nE-$Wa73?TeOjTQ_}5K@L068LM!b3^Lxwi5x~AzWKr)
z*RI>%sYd5)>yVQRbolE?St5rv8K+Eg1?tHfQ+#nc*!^(-_IZDeN819CqXu+F3KDw*
zq|&O9!wz&RON?FIT-mjeLw|%XXY6rJeMwenZx4Hd94gRps(yKa`QC@UUcvW0UheC$
zwZiFO=bgo1O7G31KhemM20CL|Z&&-~J!nG?6VRy*oV6ZpEJ;ER{UN@bvByQ(?3Ak7
zly?L<=|Jc8cAs7o3p?A4CvH1!5)$~_a5~ui@Vd>`uiQP+KaryYbeIp<cFP^>*oPb;
zpfeL$G+(?%lnXfvx%hI%9+!^#H+_bHsyK4!K!<PkY1@^9_k(ZPhOGHMS-l|_r-MDe
zjPopRu@|L3K#m*GX}=&aUb`Vp899nTN6hG_Gta3%+Q?x7I&Sr1WV7N^2a(g1gKxgD
z`6%Y=U0?XAYjihKH7L2MA(8@g_6E8?A2(Uth8!}`DSzQ=_N=A(C~|~=&b;IG2hK5@
zijgy(4a-ONp4QOwrqm?l6ak%69hNQ$tp*&i_YK`SS~dpz0v-R+t{V&whB0!~fR0JK
zj$?E;HxW7PKu1b%>{YLW4h=c<ELhGzqb^?SJH=ds94gQmc^-GM_BKt$w~SxjCPX5@
z3h3mWG4PkJ2wR05ai~+#wd5AHzXUncnXr5Yto-V{c1Ot~ryS^9b@a_<j{ek%oM52y
z-Xp#%mAzT#*u#>ar*w8#>ELv**JbAh=`u-wwE*N0flkxT*1>5B{Wj!`XW+{jJD&J@
ztuHgN6~~cN4s`ei96!1Bm3&4{7|@CQ(vhI>gYB}Yx%<xJGCbpCoDO!MmplBS=LV<g
z8srE8odLZcouP~jTjY#Cz?U<2Jn!y(f6d$E5rLc{prdf`Q8;gA-!0_$0-YQ8e+Zm9
zRy~uw#;{oHYn`JSP6vDcLv4R!P$HT66FEen<8Z@7b2}-N2|3gE@#TyiPexhi5og+!
z{m5woIvUX|560Zo#*mW^bm|hniZ6bf9A@h<f1Fz<I^qj-w(^_)s8demKn@A$C{Mbz
zo@3#cL5?`kkzCFnNl81YfE*^ElM$Nc=ErIvfgDCUY~FXC?epBG*kRY=WvKYjz%RN8
zr-MCDFGfagDD+9&g&bd?b6l_}Vt-bU33Akc&K`Q+pXd8qnvuf}bfOP+pXI%|mJ2!b
zG<-Q@^T|6kAXn1xc)m5AZsPw?<Te$jgT3ywIyc<tEBnTZ9DATs@PwDMX02ocauk6M
zn|8>rH}lo!ki!mi-keL@{xbh<EpiyC_;SYPbIj4VKJu>4zI8`pijrq^ALjxcktc4$
zyOQPWk>d+=qVveR6;uenk)s22^mfTSJaD1*J93CXCzWH<#+xnAjgT{*0?YaAo$?(U
zH0c4ExxezIy9#!d<8-j+#Z@CiiVnx+7sv?)IzcRl*sDq`g^{BJbmqeaI!eE=oQok!
zIaURpQ6S)Su-DW4MB!DYef8SN8BfNSGu9c)o+^}xv~xxd4d~d7)3e{QR=tol(l%Rh
z9d4rHbg=K6d&#)Ru%CEPfE)_Y$z8vrpU`n-4RXSO&i&z+@3#<JcMkk5XWn|X@kKCB
z2fGeKjW|o*^{5UbM+fMXnpF6+DV$r690JgJE1pnwLgis__j3)I@W;;;8A<ro54OIJ
z-A_u~)cZRRa>{{@azW)hueJaQIaHt%G8OrDhXBhO<oE)e^>J6PyG6BRBZmxhGF+(M
zH@7V%?09#gc-%j9Q4#1+bK~Mv-P_!eLj*eAO}tL!t1N_(vycdz_pK{iMaT0)we`<T
zHk@sJ(Zs;%VBg0N55I20F>vl4a;QLOzoccsu7`8^$RPtA&IqBBj}PPt$RPq9dX~3-
z+eKAL<S-KO<&4eescZ3*!rcNj<Arj*M&eWKRG@R&<hkST4N@w|Ap@O-`!es}tyW7%
z4iV@$Rw)~4#0^g)he3tq)4-pdoZihBjT|b_ansRhm`N;o`I_k>mxO6T6dCBe`W)9|
zx$EXJ<Pd>Q`Ox2Ado=D|MGhk#mXBRj#zN;NMFHecfsUx__|4uYPb`o_20BEpPP?M?
ze!IF=3j^P5y*3hoj+c4Z!!-<+1mrN{VEGti?D&*;<<ul{s6eOg?w6lNy*=NMLk2pZ
zRYI(-vb9E#Lj*dut%2nE6k9QFm-rlElIJMn9xNa8ch#>oiq{-Q4i)J1{8c@4G9l9w
zIb@)tbn?I{vm|A0<Pd>QclvaYycP3m<S_2S^7+wOvC~FAT0XWqQgP&$W)u~tgY74p
z6JDu4u9^^poG_qsgFE!|)U9|ba(sc#qGbbLhu=Lu<k$lpYjSqTPQ9MNR^z83VkM7E
z$T%JBb&%kqG_!glUIjTspu_dd$x;3F<Qe2JVqx=Ma3f>r)zeRN$e}`=6xHJqn?8>t
zhYWN|g=wwD-*@$PS}2SL23{2-0-e|x=OiZK&h^M)#K7`laiW=<I1W5U4i)I!$~?EU
zarj#sa>ziZFj~3(q}cHv$RPrql)xi_yDJ>cX)gll@xPZJFz(>X2m3k_&C5sSl{h&O
zIk`aRC(oOlb8RIN$nga_BT*hkB_--?$k72hce>|ZI<1L{K@Jh<h{{K)43Jfpdx8VD
z&8n;X9;e{T8M|+!XYP%Y8=-GRPA<@~sa;U8eg7yAIrc#3l%HQkrO{J$y*qPB&WnK!
z;y_2ffG4?QR!a;y<I%8ucHhlr|NK~25;?g*NBCg8+01hvrFSaN4^xLe(Cu+L*w>@F
z1Q~<B=*er4qXu-GqqW~!c@Q=shX{23a_*Oz4L286cAjdlevxJ|9fdDv?D;Ml7+uc7
z(NTyT8qj&4r)n#_vSuxEC_v|;0q4cRs^E0wSOJ}=#)S=KM=MCkkp?=aVr-wx^7)w0
zI>l06Yf?p+a5~uaQ~z*Y`KP&NCvq5(_~r}ih=sNpB{X{(Bc}-H*rcjNS(_CfLQWXa
zc@+LO{q9-HUsvM8Z12AbxmGwG?CX%XCxh1B{IB1iiyU#FbA9ed$OAp+801Vx;L901
zo()Qb=PF_4O2{b(I_G4(!>m$G+mI6sbo#=Qa>m;mM8`Q-uSq+0d{77IEZprh_g_@I
ziW~ya8M%7-xbBM+%gABehULs$EUP<|M;}E_I?!2>&}mKXp8kd$d!Q5VY9F52HF4^U
z;>4c^ysHeQfzIk``8)pK60?!Ba0`}CXf5w4$F*9gkwXJILnqgs@$9UoASVpya2Kun
zI$}%NiX0Nq@i6}sDs0$(Ttr#b@!+?P-9(%Y_WD&nVcq&Tm2*3C#>4UDjCIN$Y<qkr
zy>1P1%7G5+L+K3eZmkc<2?IK<ZhPOA7TvHx4jJeW{GXq3*s)Y1G+lJ;yVu`i;y4}b
z?<=``OWaet)7B6<1fX+UCMk<LPvS++LKwdJ!j5NkOjT-|&EH+f83Z~eKcDScx7E}d
zIZZ&v-EZ!P>tqj)Q9x7F<Yp)CBAgEPx+54H!`k0v6O0^Rpfh3VZ>b~TmW&)Vpd%Y}
zvh31(H6!G(1D&7lLE9slcU?dZ{U*M7$L6z`<vF?d!Iqk4wI<T;%dKfDP6vCwue@b?
zdA~7z5jpliCuU*qw8^{nK;$R_ol89(vmU-b9wUbx==|KXf%$X)#5LqFZs5xqn@`k3
zqS9)=Fri7FJ*oL>_s`|xbg=Wqow$jlbNzuOa@>GUb9CCVeP1ISk)sH7p4FshFsfVS
zp52@HFx$s{hY6>H&4;(v_AYz9eLQmL*I_v;zg<Z2@7g7RoOGb`V}p&?=H1p}8d5)p
zIe3gF-GI(=m65ytME85-r~w@T8;1=SlH5KchX8bJ8lFcS__=xepu#r&huKxT2e0AF
z8M_X(-)?<6`;useoLr#8s$~>GIO6utaRWNvYUjm6+10htcoc!o8N*&<xzWJA$YBCH
z*UoLx?N<v`Rr+yOYm|0hrYRI(&e-#!YJVK3Piz@8a;QM(y$kWyeW&Dp<k$lp!e$ws
zhs!t2k)sH7ax7Mgr}AjE$YBRMKO9=aRz3=ENNEg;`F=KXEh7Y9&e->5UYfL+J~2vt
zh@2*%lbILxB9p&y7&+xYXE^>{tZv|u3&_a@I+v6ZdZz>)6(ffVbmSZVv~g^rr{vww
zp{Yg&l!xJTu<JQQfTK@RcHd3pkb%zBrGczhuBEle5eGVLtFx6qwF(-s4w>0IHs>ZR
zT*bG3u=P=Tog7(tn+$T1!vH!j)^C(q{mk$-a>{|u+G#G^?1tm2{^eqem#1q(s6a<^
z`OT;L-;SEd@dY|ZuDl5HdHMPTa>zhOyyh^!(7cijauk8i$j<~}r&W%U$RPrq%#@TG
zUX8PM7n10%n)lZ|T?odvez5Of9Ann?y>T;E4mssOM_Tt1zenmrGID%@&W??xmi0Z1
zK;$R_ovd45RD7B^6_K+L1k2~;OA@8uBR?TNwJ4Ukv+z$j(AjpgK%$dv?IGm&0-eOE
z&0I}(`EQY<2y|4#jor_5Sr{N^ArO|&idR}G-NAF_^Sw{5W*<%Z%Yn|b-k>RpCFvz{
ze1VQu|Ks9YSt@nNQ3N^_wYxlfmCpDgXCVNX&qV*&$t2^A{^o@jZG(Dh%W*o```$t6
z0KrUY(PzjB20F|qc^)VZ@`fTu2k4AM98X`De<ck$1fU~GcpH##qr?|Ej4SwZ#^$5f
zpLWd5ev6Bjl+TUoexD8LI34W$*qXD_sl{1e_>e;ZI&`m$llGSjm5>t*baJhytT!iE
z{yQ!=pd<8M;bXaP4i6fS70`+QSaWNs%Q!FT_A0XKpFi3poDTMWtTJ<i`TRo8Byxm+
z&d@Kh?GF@VRwHNHAK&`Hj;GWtvh$vC*n8yAfX;TdrNxP(e&H%JBNp;C&2K3{XFPd2
zQ(o4j2su_j$LORZOZNWiy~vRUI%}fNd!z@vH%1N<&=DLk>H9*8az+l_4>n(GWzH;b
zh}+z-)0S~tt=*+D9q63(FV5I)vGo>m+<?ye*^2Xbb{+IZjvCO3%;%7Z+QO(r4gu(h
zeO)E{BS~!sat1HMaxP3~O<N<KpJ7vBv3KM3Jyk_OXM%rJa-v`IJ#vD9&dCDZRGHP!
zHzJ1wbP_tX7dF3|<v@-Q&}pjk{;y9&FNqF0=UtI&6RS7v3(NVmMB2Nx=3Fw!p#hzD
z0=lAB;Z--0LjgLM=kMKOueq0v94nynGxm`{<&|5?$dLv*3u{jA{`|E~$T`Mo>e(#M
zV<wyq_CDeG_Ze5E^;evc)8vD1zOatj(LAn`(Ti`8LjgLyq1Uz@9{bIY95T>Rc%k@Z
z>Cb5+<Ol(s*vKs(9$1vS4|uTaoJ|ZH8TZDQ5B7Sx)77NvK-S%_$SDUpcCKxKp38EL
z$O!{Ftjw%CZhUrsfgCc>sW{lSUoIzxfE;n4Lt4GRaLk7JY~n!p;@;VU!UZpUIb+wM
z>f>Kbil<7%kV6AH8@Kl8OSm&{M@|^f89KKxJ-W%*1vw<3Q#&~q5Eh$w1vx~Zb0_{I
z=alJ5Z~4uw{HfZSe+Dn%%Ne_#1=6Wa*@2c9kW&P7O8Qmed&{=CA}1K=*ymgx9W~Az
z4T!nB;8^wbHwoyNSU)KJJrGGoju6l}ZMmDu^P4pUIn$o7oIf;64whcCVif(jnjXs0
z+f4&HCHJ~$&cV;QkwXDGN_$TqVwyf&h8!!Pvp3!5{)G{m8*-$9juvP1mpZm{4ai{v
zI^^`7uPz3@Ozr%5Fi_H;#fR>JZ@#c~j30LHo*qi+&p=Kt(Aj7D?hjMUGfU(I1D)@R
z%bC8*>_NyO1Dz8hy`0NO``5GHXsHf)C~Yr|)4}c={$f!pWpYGa<S+r9J<OhJ&6&IY
zB8TpdZ@#eODZW0SwOR0V7;@5qPC|!cK$M``0&?7d4yiu+qE$X)LX}l1WVcZFXEmG-
z_B!}7FL(8#)ngmvumc@(gtb?7bY=%~=x+FO#*Qa=JMEdW$-|XopD3vpXSe!MaXQ%f
zBAE&+-+uF;06F$R$0=KyRraygHRLD)oo`E7+cU+R|BZ(o=&ZV7<1oSX^eP$;!xdl7
z*nHju-QVn)z}r`Mb%~`X*mfxwr-PlZf{WX&q<Z;HkmCk)`c(*Z5m(PUAV(4C$ZeQ&
zGL}AY-so~nyhMI&9urOno6p@sJr|F&L1&RecY)<RU;6OxACKM3$Vmq}C#D?w)8kCb
z?F?@i?Fbf5cLO>jwdG^MajojeQ3E<-?s}`=?CBRq4gu&iSsX13(d^@XOw^K)J!B|1
z=nTubZuq;yFZ&QV<P-rNO}l}Uj=G+i$O#5IwJ~!01x2i1hnteBC7cfuNjM#Boo77D
zEj5K)?P2670-d(vsc>cU=pD!r0y-bKRvw)@{?Ws7CZxBcmw%car-MDek}f|D(oYVp
zLJq?THt(aE+N@^HPU^_X1v*yulES2CgH({?3v`q!4%#cu-=-r+2k4Aioj6eX#_!k3
z+q}}GRY@E~pmVj0!~e9t$`j;_JHm24AaO$J>y5Z7<dg%QGkR)VKRLE-Ku#FY$#1<O
z7G1c_(m(3T^$5*C4l+&$TL;pazH+Xh?QSP>6oF0_+rz8J)pB1UhX{1mSASnx9NW4F
zISUu@%@_8#5>%bpsvM}{$YB7TeH{}EaiUI3nW>Bu_v93o%7IRx!~uVkCk2;~Lj^jr
zHNSF(gy*%9;|p}wmG?fl@Vsm-a>zg@Wy?UeELGhcIf_8%!`=i&nTU!SuetY`Q;$?=
zM4S$GU#<2!XgR&WB#)eN2Yl-X>!cmtp)O#xaSl1<KxcKvzB?6PTJ{w;&y9xg2+D>5
zol?2PZ9l4K*pNd8IxO1d+AL=$R*)kObUs8p$m!G{2pBJ->*>F!q%GLv%NhGRK;jbb
zmoBk8<H(@{9Z3R}Dr&&A1v$Au=asFsGPA3aw}#x;j~7j(7{NFl?D`oi>W?DbNunZ$
z1axu?=k-24j=7B-A)vFWVe7Xaek})(Gi`@&zOcvTv7(idd*1&fa%e!OKBBTYsMf%S
zf8^N5%3nW%C^#ML^VfslcV@1=wwXW<8R+n6Ui3|$&KO3H5YYL#sGmJa;&_If@eBBJ
z#vWIHea(DoHuEp!6ak$tr7=GY-yC_!I8!dfyf`rLi_^i*yF<Xb*iYBJ5|E<<bTUn>
zK9U~>DkFyobet}$E4^HNa^e+xgR{Z#x4YxE_;SV`*PrN2oiW{@O5~ISo$>wr`8(<x
z_aY|@=zN|NC_g>O_c~xz=UOej;-6%k4tD(n*zWwf{@yW9<Ol(s-ss7z^BRx2kTZTB
zU(VR^gi)FNm)0G4hMXdxV|erahJ)nt8szu_oxIWDVx`gzYD|AmiX1<-eNqkR6sjJ!
z3xD!j2s!LP=TXI{@U*prUgXeiU^zF~Iu*4X8Cvad#&eP7ymB8Er-MB&JdW1C$ZBnI
zMvgtudE%%iZ6(|jgB(SmGvi#tbeKufr_;`q%X;xBfgPuVz26|neSM{&9-f7qL2G<D
zW1aR#5((jzZI_W#4s?9K$9(>?yRGxbUD5g-Uw7`N03G51VQN6(A}@06fliF(rAr@E
z0-2Db26U_!0{kAWyKxvfM4)qJ|DUuM{JE0InLY=bFWzU$?T7l_tlCkPQS>F}^u8vX
z4)(lAKCnElS?PWqIaHv-*>06Uks1Dj9DAU1saoK)MOxL%+o?-;=R?iv6oHP_#xgO7
zjX$}N!wz)#A0HHY$M5kIISea&^M%d%s`)Pe>rYuLk&_E_GI$w>a_jo%GaFBqF7wwl
z`vRRU@7HNAq}sP4M+fMTeHZx8Up(B193s%+Je~Q7+xFZ0Rptku9oGpg9=F7oGxoYn
zsVQvp**y6HIYmHcGi&UM*s309<oE)ejvPmsrIfN&$Wa42=Og2moNj(2BZnR6I3G%D
zH%efLT&uC^y|l2ghHe4NSvo3>{<^;78*->XC%fOZFpF|{H*&0i&h`)!M-BH5SLBET
zox}|$o^$O7<B&6b7M4%;H#^dbT;-F({W;nPmKz+)aXQ$2gK{!@pLotUW#ohb9jSA5
znWVYL-;qNGI`$)}nz;g%ZpaY_Iz6-LQ_lokIFPeojxT3yKI`8<OEEoq=AhY1&FsEM
znWIfO9qj!NTa#eU`gf^P$Vmq}w{4zkUO!w@f*fC<!+U~%;~g*WS>%v_PC+oUzs{b<
zkH`@RI+?OEQ8teT)qh>v@k{K4WGxd;2is@InJ1BSLw7#@319z@@A7f^G&6kjj&&4R
zMZVw7sToF2Fwo%?HPKA#4*D{qSbbea%;CNoP6vD4SqKqVls~56azJdo(*0Yf&De1|
z*yCaonQh39=_Vnk=?pBN?L)MXeBs1-0aeAGhv5%1!hlX-Qpkyy`{GiNqXTqi&S^*-
z5f~h$v@%+Fo7tJ!aXQ$X4X;c}mW1DJQt-|3xERXOO*e(*vrlFHU9OUNJLFJ+PQ9T`
ze%7b=ROFC=&WiNMyxg~Y{E<TdI!dq48^1d8X%BMfWLQ2qt)55trw-C?vkl}r_#Nh^
z03G?n{Ha~v_*0NW0y_5>tGpJY)%cJ@06L|)*WbBDo?t@`-2|4;l|6xPlyx?kAcq2U
z4sQ2+vo-Oez=)<VX9VXfaT3t6c`kJ4RL$0M<Pd;PfmIaO^A}G8kV7|y<-@!*eW-al
z)dV>dptIa-w(0YWNh#!zfR3!F!S}1aI~DguaXt?w7G)EF4tH~7bFlp@3*^vG!}966
zA)&I$AXphW6ri(Co8TWskt#$E3FruU_vxio8EPVj0Cdu>R!7#jm}xo08-C9`X}3f-
z!j}*BzK+s#L{xWi@ll|UQ$wMb+3Iwlv&#9D!*!Kb1<KA=tLeDL{cboN>~*JV^HK4?
zx!LA^<iVtqG+MAC&{3`bbuf#dT0eH>=wHE8VfIWo9qfHVWTXR4__yTKEtm3LziIJ$
z&<yeAjCDRAH+S9ae25b{!9YjVrQnjtk<DeuQ3E>u3|sf@PrTTX!vu8VzD$iA{(5Ln
z)gVK!=Jv!4?G!AZi#*4#<hq;RM@}%%IgmQ+UEU{AfE+cT(>Z&(;6Qz*RcAhZSCL5S
zYbKyGX1Q_8HuK7z>x5U=ztcZ#KsyP`hfr#yqq*_7HgOH(h0eOS8o@Z7wM_r}tKdqc
zcTZ_hn7CHg2M<1$Jz+Q<?0G8X|LwqXfqDeme@HkT?0FH)XEB#_kx7pC>j7=$zabI?
zprh6+&Ht41TqbhpBv{VxSwqj~b0$qAhXQnd7rZc+5Rx)9JyXZBpd@>M1av~W2Gl!}
z9khPBS$*l2T}>bWohSk|>crI&>b2vXra}XKN9iYE`7~FYeb?hVXM!9G&^feUOSrF{
zWICJ_elAm(&6|YN!LGv%Jlga)p~Dg<yHY$~#$;y@aXQ#_xH0wVjEY0MqNK0Lq1NTR
zlMDlV`C!M>CtoILx$;7<_bJbX?3g6}bes<Mb&|lNGU1Jjr?Zjc3v^5mfArDoRjrPc
zdlq8b7vxUD>0tAzmFo0e9OpR6mXRt&jg7A*0G+4d_KL?=ACv1X$#4AnXQK^WA79Sc
z@l1O%N%eCbze*S~)K8FjMyCLsBE9Wi!GDB?`uja9CRoHINkB)2+#s>Bvt|E?f=#$~
zRzeH`=&a8alZ#|OvOzKWW6YkHFC*xBuzZZyb}e0Y?@UY=d-ggvcWNyK=vcdOJS~^?
zu`e0bdP&VtSt0?QnDk}Avz>2tu??q{FgrKQ5P;58;z5&qX|t&!3l87MW3k)m$6@&l
z?4?@JxQkt^173e(<7lX*03DC_mr{do8s9NsH*9THmu)2h9bU&zGAU++6Jw6Ho0|i4
z*AReC?#I<z9@)Ne>baa~tYdEWn0^eFPeio%{f}OHEsR~|smc3FEGR(7cHn#KkZ~J1
zYc}_Ouid-zB%tG1$7&@ga_L0!jMvZX4K9iVpd<Z@@S9DhR3*H_M>wT-T7#|&%V*=9
zt>Wi9N6)X4^M2|PQe{8^I<$AC3G92nN+*7a7&tzmEI|S~s}Bp@(7EO!HsbFY8!iy`
zg#dJT`s0Q3G)2~mO5RoP+m{(k*Ma5p$UDluPFdpTe%2*hzxK0E6rjWF?@O!S#&t6)
zS;_uthW$kn&>0RpU)U8qa&748SeZmvVhsW42))pC6j86+Z7n(Z*~vwtn63@W=R?$U
zqrFZnl?qgwyEZp{pHhI%M)M(ysg-ut)hE8BD@z4zAORhLv`gc%M<~M&KliJ)I1$zo
zfKKpm^6nZl8i$Krm#k$+>_fU1EFYo6CRr*bmlRw|WG&?SM+PZCXSIr#hp*VYi@0oO
z@A<6)b|j#4^~xpV)7iyWwp&KCKlAK9LI679-znEfwhj@-9~6GwXF9h?*M#NsrSHB%
z?fGgJ)5hBaNiv_aC_v}r(uQZP?L(a&(L(EV9({O20y>AI7n!a-|K)mp=)%yg-P>jf
zKu2Bt0sC>HcANZV^>;EneerY+SUz550qn<GcGn%*&y`_!YJD69=rF~;ueojTESYDl
z{6x#fTxk-}$y~Q~6KmZ3X0hdbW0f)+F9Oi<;n$GvOZ=?Do}|CuCt+hHT^*LshOR<^
zbG$(Z$*F?TQ+@Y7Q-F?0W!G@qhq!{wxm_F*O;5N<K&S61tC}ZUW-ZNqPfwTG<}m`$
z;Xho~^Zlf;bh3Mr2*bUulYSJIk6823a?3ntgKCK{V~;8a1}Q)%Dbwz-NJZ)3J?D)R
zvPWq_B%pKYU1qzPG3zUZE&j4gQAgJkfKG?_45g&$P2sT{Oy{zHa9Gff!18&mC}G(W
z(>M9tf$t0VDy=38(6OJe&kjf*&xoB^wYYyYltKbJk2Zc)dVj-v7e)J8>YH!<c?6)d
zPC<U@nY^sZQDNzo<5~xK=xVTha``sc6)SkMum-K;b2#?Eh5~f%vPgUlx8=0EZ&G}B
zN7buX63`JU=_uP%?q#D=%=5*sbYDCH=nMwa`Mz)8aay2pD{DJnCyjm>mXGQvRqIvT
zUN`d($qxeVhb2>h&OuetwI}tLgV|4?<I~@9Oqv9A_P(tWSSw}fmYWusrsg*$O#nIv
zq)s=N^sV+UxodT|PfKT%t_sWN8oTKHMd@Vw&+q$c?tJHQp#Yum*AIhI{TVJ-4>V?`
zdNj~TK&LZ><}}gWdZs$;Lh!{3;&B4dvD>NQx%bF+No|=Yl!Iv(%IJq+`8e>O*ETn&
z3cjAbCe51~o=gEc-uG>)s$QPB;Z*9GeP+bJjRbT;1K({?yBW~D=j__ZQ7`=h0?>IK
zGIEWpW+NkRs_ybm{_B%;6<9v*@oLHsq$1Q^R{A;ImK!!wfR6p9NAJ~KBc5*T4!LnF
z^^yq*=vXeRrX9T;Y?LC=T>td$o?Qf>b9n0G)xwV=iMkes1xGWTndr)}d>*GCQ;=nI
zao<&aCsX_b^EC?4;aMv2@wC%_v*Mw!g>U_(w<Mr5RKqv(ApfmpsJyE7!6z|~2|(wd
zPyEz#$L`q8(w0v@DHb)*55n?k@>xA$HT?c$T8>3rzd<=C1?W_SwGjFEY)-6cub7rB
z`z=laIuj!`^i86PDLa{B)X4<nhXkOLu|@wX*G95dU`+b-)!N_t=}NGCWVqH*4?hZj
zSjrryG+KR#hXQoYWzm?;yn6@p?S}MxwHwArK&Oao*U;*{y@)2Q-uWg-Uzz}PxHGQJ
zu?uS|ADZ7%`kAylpRNeYC$CDP(zHlcGlOHyVA$s4GYZh*z4r6EPrRIBS)TqT)dj;W
z63}@Xd|-9H;DS|U%loixtxbyrprf7BI2(RuKd~!0(Vfq3L6xom%V*E8HqP9!YV(H<
z2eK0meJiE_o!diS4xOo3_!h*?B5!5nxt|1dO2n&Xl8t$9<?ppvR6F4~O#nLUU+!<G
z&dU#9PdlL_)cDGsE)UCR#bazHqTfsWKL7UcvK^ky6re*H?~0wJ<+`hnR(^N#eVjl7
zIw!Li*5rg=x==9V#7HQvxK02%KN71KX>7t|%`v%4nO|PV(dA(I5X}g|ra8Y0EH*q*
zDjs%Zq5z#p*ZXQ5>zA!(em&eXlKXKF3FyQKosYEG+AJzyd8;c~O6LXv=&X-9rnT__
zoij!<=5#Kb+&%gMSU!9<haAG#PMYavx?kUSI{G*T=)|Ru3CahnF<&Vq^^}YI^OJzi
zj*bt4-+E^Z%YSXpRvZyZAOIct$03_ivh<!Phs$Ohy)5vCz8{tkc_VF{t6JXBbL5);
zW;bd)1?VJ9zvBv0+w($)V|pgx>B?Rb(0Qdx+xvXG-Lzqy%i_#o3l9R&i8(1Xd;IO4
zOwrmt$LY=XW^`FtJ}I-Odc7`apYJF2)=J)sTSoyphx~hfhL;9~e+x44-N!X2LIOHU
zD~tWwjww1WBFls1h}RYbpmSih);mM=(V>>VQL$OM`*P?quzYTsbZm~a3UnA%-Cgpj
zy7mGE=#0APx%XOk-^#zd)_t_KJDvn|8s^tZHb~h%^T=Jb<i+l>kpOgvY*JRmpH;Yb
zycI1K?BDl@E)C1)XVmQ{^UnExZAsfLdvE&HQGiaX+!b4ec5;Eq^7%rMJ+ZGzKqsv0
z?bph#+>2U?r&tu73Z@A_$D#Jf6P}4(>o3N%G~CtPu$8_KmQN@rcTU@3*`dU(x6cU9
zyY*0jj(}&Ur@>g<{EjD&vaUvI#FBsxLtfZ1V`t-sU)}2-S!d{T6M)X4==RNgp`O8q
zjS}{3Z>*K4OTqFfxwMx@@Y4))S5BRe)G8xs3eb5#l~U@cJnk>fuYW<%Z#tX=bOarJ
zu6kPsZt$xc{9|9{@SXs4Sk+@UWIhbM*BUCcGyU)TV7eqMpDK0>*W5=eCTZ2fza;i<
zy+i>z-yer$a+Jt4dvB>y+1w;sO#(WvmIU%MKfhPdE&OQyQEo>B0q9g^wrz@Zx6ibA
zq*bY~IboW<7nl!2me<qLHjB+RBhT%g{8<Xnai2IeBDBcA`tGkO?qg!7s3f2x^C_Yy
z@sKA=ylzC}cjsCz0?^s{OE3Ev(aVJ9#xuCg>am8t2bPbC%r<>d|HwI=cI7#@ox8Is
zK<7ZxCev?BE)hweZXBF(@JJ>Bo!asSYxYx@Gi2y%eXHi<qzFJ~c$=T7d*bY^TS-o&
zjS8FM=@PJf#QIYj^<s{Ap6Yf;m_P6_n*wyA67tn|JRYE`nH@cAK5}M)1azcS9Y&w$
z`wQJ_txd1Lr946aI^%yE@34!OM&wu*yjORA&!F#y<x|}r;IVAC&S6UMZ>$SnzB~o!
zoMqY7@Ok2L|3e*V9~aez0us=9I_{8oCCgc`Ylg`tr1Z})0qAr*Sv~7?QRd^a43A%*
z)ZkvaI4qwpY^jr>(Rmifs(HiqaA@A30G)&MKMUu-XbuHhhE)!#`EinfPU3L4@s7*A
z3{Bl_ZzkMs^%8&%wWgkL+%sL)m$BoyG^5m%E(Xg-sCIXk_0v6zcf;q`Eb%L(P=L;`
zONCju%$YQqkiSK~?|y2NfKF$Fvawi3;_b3Z{_GucWu^q6lO|Bc?sOnxBS}7C_;)=~
zlP(I&=jP)RKOB1$R&vh|dbQ{_<xqgm<A!y^Z_|%f<k>dY&RLC}CIOuv6DC(~YwUBe
zAK}nc-8C>l06JYkU&9&#6FBJ(QDx`2+a>8Duzc>6U$|(w{N20Vut|b4H`PP|I%_Mh
zN{Fpo>wU{L8oI)>ZIJ|YoaQPjt#>7mZQu0zJ~}dHN&q^&ciW3Mr_ohhDpzPXGFES=
z?}FvC(V=@xoHo*-!%TVU|3tKb0(1&GPrmSb=|51>vFpN}3ZHu<pmTVwX|=K5$<6lH
ze&kGxmbMXq4wua0_4&ZU*~zx<dZsr&1?j@Dd<MO$CpOsZojyV^5DmNjEsp|pF1D4c
zA9y*{(wx)4*A&itm;`i`baN~J%rCPONasdh^iM7kfDWr(9Dm@eu$H0aX4bwF&I0tE
zuzaSw9weHF{+&V&1?a4cy1VO)qjPDwWjpuNg3!$*pmXe`LB*xk_e@R18t#;HdNcyi
zNq!R@G#@tcNQLS>GZdgdP2YhpA8g;~{%lUOs2gtbRyFxb%stJ7bfD9t9Ty{DAf<8U
zV-Vqfrq6meoDR0{COF*X=#PkNlAFv%j#`^?ged|YDd7`lbkT}Tln)b52iu?GJ7co_
z9dBtDn~=eo%w~Zwnh?I6v5xUeHg5xaT3Xzva=!NV-?xH+PRDN2nX3+x|K>{#=)4~y
zMSSS{6=If73KzMZzmEy%3<hrD<oWDcIl$0}&p8!eOcTVH54KP0%Vb4qBhTq&_JKUM
z65rpsRGbcW{p9!_eZt)5-lXiNZN0<$Zj=>H2Rj~~O{x-nax^cCt6K{1eYO-<#OYwq
zuZ`5II==x)!;J;koM+?&s@ZWm*!A;Zf2~&1*l5Qy=R^_9IR2of?f7!W=JRP`LxDqr
zXxl)prP`MweK`tF2Roi#JAS=t-NU>xw+^VbRqo~^;dHR$nfvYhu!C!_=ADe6C0B<Z
zE)j7$*zpWo?EkgswCU_A!>nfQ5guX2HhlSD9nN8;`M$PSCJ{<w=dB$`UR0oSa*p&;
z($UxP_+N$B(&6z5WT12X!6uiW-mp)o?~e#{UMw7cY&mN;g!=v%0<e6%*vzgq?CIx5
zeScJ-6F)-L?}~eQ6ZQR(flj$<)`YFFMiJ`!BLW@M;<ek%9US{npB-Z>ET6uQcR0fI
zp0A)jJ1Wqz{=MExFmbOV>a!yQojqr>vpc#&8&IDe5$HTw#oO^|eq;~oYh!GI<rCgk
zmiG1d^mo+PMg=<ddUs#uWR+b;eQji*!zY*cnKn5diTcrqK<DVN2HE%V(j4kXWAMZB
z(b8uo@(OnpqJA_g(Ba5kLso5&4nX~1WT3O2vh&Wf4nAGf|3w5kw;%V$TaQmlqy8@j
z5ta{WQ~ISFAqB@#{}&bLL_Nvpqp*o8qrNRN(DA-f-~Oa&jDY&Kh(ITnU^vVv)trs`
zwitY{e3aVt)pc6${zQFSRG_2JnVETZ=x8JAw;}_br)|F{EPDJjP`?!s=qNAzZHpRI
zbVU7DjLooo%4T=({y?iSLj6`$pyN;JeUp*ew-@y#k%5i}d!fujDNR|_mqY|Q8ebAt
z${uieqP`>sFDxIn%Qfi&g+>;rFNq3tG{|d=Qnb{iP+t-m=*0H;c4S)wZ$o`aM4;0&
z-tFWy*7yhYB{6tl`3zUF-xAy%{{i(SQGw2QmD5(n^~e#_mqZ3SLZ*d|J~_fQsPBdd
zbV|;}3v<%W9YK9J3~pFH^W3MHPjj9TKz%n<pkv)r?%lxfi$;AnWS}EFCBL+$cg7v{
z-4KD!(D@$sKX=pOP~Q!M3zpB!mO~LY*Ckk@z8fmg5ihT`S+*KnMtwJAsM8&x!L+-F
z1@)B>fzB~OZ__&`%_yj^guw~Rhn^(MvO{;E7WI`-fsW?u@zyb>@2aS;gbZ|em4hWu
zlNv9hz7itPnXqvvxIA?7IO;255McR?mxiw2nQ?j!^@C7>PI$oVC|jq*8`OV620HJ^
zTN}tG-x^T=1rg}15ALbl_I5xS^<OYH!Sb<O{vo$kqGbg2Ur>RLmXiKeLxc9KsQ-ct
zbcRhX$Vs-o{e${1h(O12-A5Ju6q_j2f5F%Y%ZF)ym+}Ex7&q#_paPv@oqIi(Pm8&s
z{tGhDxpq=ac=u)LdDMSF1UlV%b}<15PgSG-3&sXmKJUs;^f_;SQGog{s6gjaM6-54
za(@KszaRr0^R8d-%~jd1p#BRY(793HnPzC;QiA#~80%sAj8;m0(LHQZj`}aCK*u<u
z@Axgw4|LRjK?XWUU4o1pul}K;{tF_|(Uhi{^${BfP=5hq9W0-l;!J7Pw}K^5UjP;8
zj7a>_36FHvM|}Zgpd(J}3kq52S4DjRM4(e)Rb=P&U%zP`^#w52!t!BQJM>%%SuKhB
z0;oXeT4r9or)%shRL@TaIy;~4h?&W`BaZ6%i9lyl@gDny(hDM}o}a-1%O|!_PHM}D
z2OZVDQ-O~D2?wenuT~4HS0@9VSK%YaS+37Xp?Y;9&}qNCibMRhHwD$JGuUDI41|s;
z-D=!!hw9a-K*w(Jbn2$np^~UxoeXr8r1Z@8`>d8j_3A{RGg>G8PDJ+FD5_Uyu)*>v
z&AQ04^z9e})pb*Wj(AqafMe8j0IKUI1D&?ZE~S4C+Pz10-9)J4s`2XJ?fQeLj+(&=
z%SSINeoQ91u^-h@Q-RL>QnLK@`q5XYZkY^p1m08L_Q=I8qq=1x&^c^v^EtHeTo9@^
zW~_nbBmS1iUG_p`1=Sl<fzGIrgJ~Kkw;HMwCIg)p`J?m7Ds$4PPM8REq$J<%3x8K9
zhU$bFEU<h|9C5pN&^y-+)d^F9j-f6GX*?;=1l8q|fzE8|?C<chV7?6v-##0qUk)S!
z9fq-8&)?cr&ZwT2u^N`o;Ch2Z{V{GEROd+rI-a3ML(U26ji^4840QC|r+XgUnO4<N
zt`n$Y-tR*MI`{1^34NJ6;)CiT8LMFV>>=dORd_whMfH$Wpfmc%psr5gc^axeBm*7w
zzaP9MiS_$YogNYBw5+;YJFgedhw9lF%&>g=sxpq2#j8o7dNwN1nG#D?IIjBr7^-I@
z1Dyb-V{2TqJ9<z(8xiQ7FH!H(>0LgG-p6M!!ScynytM72b}Sjak52_UYi>$pHJo{D
zhTg{~107Y-QTc(%RTT6-J`w12F9-gZ{B+d_y^qgW`LpuhU;q14&;RdF*!qpIB)eZ*
zN3yn{&)ua0op<Xx+E_bH8&N#~8R)E52zi$EM*0J)2Ot8SyYgqYonc=;gz5npe_{EY
zxOIF?aQjpzst2F~9o3lw^Gn5bC(!5Rl7Y^uO0TF+A)yddS3m?hd!}MXXzCBfP+bAz
z4=kVQ;hURCJuS1Su7C=3X8QY@&J@2rh3X2(K*v>Vdf$(Gr;<@!0TJlX4(w;CywB@{
z>IxXYVfo0$7>8`}i&a6NPfG<l*+CC1GH)g){Hsp@I$!k+b!49<v;M1306H4>t0LH~
z3nu>6CoIGAu{bIme{g<0^k01f(CL1l9$xanY|p>?1fX+j)rRKel~oG=>JxxYJ(t62
zk9~t8|LPN#VEH7NC^CIpj??>Bp8#}>q<0a5j?m`*)h7U*F9%hHxOOV=|Eo^`I^>$@
zF8gtf5C7^D7Ge1e+}4*pAJuL4uRa0jByb-X-~YkkIr=<UGSDghk#Tf;lm`jbIS_%4
zPxKex=tGhfsLp}00Lw?~%M0?Q8Co!^bD#p9j_}>T-wC~qM|BQlpwl*}Y4(Mna`s<+
z0?>IT!XOw1Wc>J7pD+*0$Ac73<0^Zz^Iv@e&~dR13#HzdVf|O10CWx$d3E@^p8Nc(
zPXIa}FZv!__)vWMUwy(HET4!&wmhDq@z?&<CjgzyU2n^OP4Yzjt4{zrAC(U_Zu_PG
z_FsJh&{^)F>u(5%-i7K47{6foEK9PtHT*x$?lhXJH~bs8WJ<|UIGUVBLxof_lX=LL
z<d|}#%u_NoNtsE6bRs#G3>lN8lAofeB#|7IoJbTQ4OE8b|E%>~p0)P>&0bgUdh=QL
z{k`wK_c_OP?K}4TCa5c5Af4d{gVxnEI?JK1fQEELls^it3DSy$x&jK)S#Q$OHEFIr
z4Rr;qpSXO=j;rY_Wi9vzbp;HhGt+-S-CUH*6zU3SNGDi|#mD7odIahUC`ji|nz7qF
znqoJ+uaflxmrtV0<Cbd&_A5eN0R!oD1t=um(>LXWx&j)~xzcN;Yu)!>C)5>Ckj`dp
znH38b%WQ_a0@gS#AFs<>7QT`FRta?l45V|^@|Sr;cI_>wE1)4A^BdOfri1JDL0tg_
z>8Ng(`(<`|OEJ_Hu)gE+;oTN#ZklYg3hD|NNJlkOGt%#M^C74!pdp>u*>E>^srP<R
zS3p5J*MEH!PB7hZ1L_J`W4L^1G8KI<C!a2Zx&j8$c{N(w(VTv>4C)GKNXKEx)tJ)v
z*)~vDKtVbjo8mrw_>yZ6bp@<ZTs{YHW;##S=#4;K0R!p$6sSJMdAl(O>I!H`$2??8
zGW@}QA*d^$Af3wg`ObsE`KeG>z#75jvx6C{_HEs?Dby7(kk0n!MRGbkBK}ZUKtnoC
zBdzCS4|BLcT>%B@EVk`Bapg_XQm89neZ%FmB~e$FTk3}>yl;?!bnNF-(uZ{Gtmf(y
zkj~B8EgIgmG=sVN1f=sQMWnLB{l)NHeZnv<pR!Hwu5!-v7nrM0Kst#>wjZmiDhP!4
z^3jlv!_nZv&!IQVpw5AUbe6BG_u)zAGKD$^)(|eAanW^-v%`XZQ0KrvIs=p`sixVr
z!BFQwLpt@FK1mdQ5$b?C2MW?r&2D$;IK6i{)H$%e;_|6YKd#s0M>_&_4h*E@)wIB9
zHszx<)H%?QPMlEUNPzOo3sC1kK{^pnkD3eAS&2iP1M3SepYJi36xF(XxuMR1fpm6M
z-dZjk(!Lt%9B4@A(^EyGV(-FwcwZa^>2zGNpJ*$k2gCc~ScABH(v=iuD(Cfnhq?;}
z(lO(sO|5QR(+71IG^As5bNR-?7keAveQ^||b8{$hm90wD;ko*a0bD)}cip%W{7SUu
z>Nk+i?_($Ebqz~b!~5cBNT=5(QgSlqb|2J%P>_!No09#U%j!p=4utg?m(M0$YtucP
zeR@y_!azEc#zn37V^2yz9S9BSEZCYvVJ!8Rf;tci(i!|Vee>edyxZ`8Hda3_AN4GW
z_T0w~U!b0ZfpnI#`4c>+k9~uB5*pIExhhOf^JvmE)RRz<&aF82q42AjOX0m?tWUUn
zn)*CVDBb%uLR|_2=?HId*ynkutO)8-Xh<iDf7eAdnfP5$mqI~0MLh4^*L$xLgt`<~
zA1)u|j$%WB4%uL+OJN`#Lx%~`Z)=Y^L0t+B>4;U={Rw6q`VZdwL_s=>lU`Xf?+eVE
zt8eMW<&&s)!T!%4QKz~37Nqk%^sD`TP3F{GeGAetsF5kXab`>ITzw1DF+O%KhjX`f
z{ak&^M_fM3ZI^O*Gj%lP>RXV`$bfLtzPgK?bM-Aq=fH2t<!6=CAJ5gdAe~8FeQM3m
zjofqfEo@vqs_FudTC4)Y;e2Wa(#ik8f2>RJ&@ZTyp&_07H8Qt+E{6_7oeTx(WV{HO
zwAMW)4|OuE9$Y?WXImXE$Fp3ZPKJSW{w~_(`I!4VKh(+4kWK{s==j0dJ$Z0GH3jKp
zKd3!IJ)fx$^){>zxO@^i{?5Bny}2IhZ5T*Lop)27vtp(b)Z5UI&bI}difhv%#-ZMZ
zf^<^fIc9BmoB0pUr)G8I@;T%6;d;Q8x>2axVIZAe+h=7w2W{^_-3|@uRPWK=yRZ1@
zZ>Za$Af4;I!;8-|>wV#TYSw#PKE55f5AK|>-9A_UgLHQJP-|8`YMq*^|3Nw_9g)6r
z@hczB)&C$JWv8ctVa1;#=jwmn;qrOAG5FSPD-D;q`X8jTcsuvw@%>CUIG>t^bRuHx
z4QGF}{ee0n3ep+$A7j1PdnpU*h*)oN`SjT?GnQdnOF$hF1L^!puBn~3mCFR`h-gSh
zvFT>jt4#}C;e2We(&1#N{oJwan<vyGvAS^iyi7GH+s%4u2K7h`q{DF1*tzZ3o-U|I
zq9Gk#v8Ou)a`-Kv9*Kf<%#3za9D1GO0QE>L7A~LHIaQjgl$8zOd};>L8M^wy*Fbrw
z70#!oA)OantJMyNhP|7sk3u?^54H;gc3YjDtB>l$<<ontUsZk0IqF<}6w;9}IQhf6
z?B3X1eH7B^X)0<9+!Lt=?}4Epoihp-Pkg!)J0I$-SZ{Foh#$IAZ=)300(Djlq%*YV
zeN*n4iB(W%MMF9+g_P8g>_0K;+D@m620XV?kj}Nl^UtMZoAaPvi`9Y4=WTTD{b%F;
zJK>yb2GSWi`Dke5lDRgVb4^1!<@|rMjY_=g;hbv<(z%^ZUncRnjt|bcX1&Jcqk8|j
zoxkjqJ=C)?kj`j|%Rh_PG$z!u(U4AR^4q%0?{h7no{fTZjt2i|jviAHhI%$uJ1!sF
zqX#9OLp9z)JsSh*SQtHGDIRX(f%omukj@3=q~q5N1?8bGj)HX39ra`6goeYQE{@fP
z%ct?xzsoZH)yv?VYX;IWwQDH#OK#JHbFOJfr&`Kj&E&xy(s0f-1?ik{oxib`74;s@
zxn{k><>P<bO!i>p?sBLbWFVc!nr$690!$C6_oE@5E3xiA_dSyXpx%#ybbgo3w9arp
zorHQnRx2)__^8v{*b%7`Q18b;IxR-0%nTem>Y?6`hI9fR4M_#_o-%^>5mAtiOVnHa
z-=Qx;;CyP<OI$uut8E)^-hZ+S&ZlM|oyw`D8B#u~IZ($)LprPKuU$*ve-;9Dj1;7k
z<$7E14ey<;P{+t>!R0glU7vpZRk#+^F*1-&;oWd`w%}_qsAHrdoiyeKL($I{CZLXy
zf^@F6#y?rnb5<Pc7+EiH`2@bWtEk;jCIEGe45YK_)6?IP-5&p-j**6RF8^LI&1il&
z1$B%Rq*HT~nXR>7oD1q0S<Se7M*NJ|ZZ4Kx1a*uIq{D9~bw9xT^Af0Iq#+&S<#aWH
z2b%(+j*)_Nj(w?6{v<DD3w4aF=eT?#bCV+0ny3E<b&L$8<J6b4Uf4J(6zUjhNT*C`
zAn#LW;cKX4q#zwZN3n_KKS_FUJ~itZE+65%%3z^^Y9^dd%|JRCgP-R=URyr^=Tp;=
z&OkvgS4$h~C7e%9K|0hej+V`nHnLFX$$E;*r~c%cHF4^8#&AA01L-&giM?9;q(Bnt
zMQKPUV#Cmr(C9s~P%lbBI#Y5b?>kD0hoD}R)r8BZA^l|s!+rBAs261*ow$-_SC^vg
zGEgr{LpnRRsGYwr$$bjyMJY&U@#|eD%a3h10rjG+MqECV<43Ibsar`vy(k0eyxR3W
z)#<L!EvOfzAsw0B+fz5MZOw%9sVPWj?Lx<gX1dLn;CyP<6I?zY)>x-bJozUL=TkF~
zPWjk$m{tAOOsIpUA)QldQ_THJ`>#SBECuP5w%uqfl=1P0I#||YTt0uQhkP`-^>;!Y
zECcDh9P<jG>S@SB9V`v$Snmw)Fyy&)66#<nNQZNF&%qntGTfmKmeqjEhxhhl{zThi
zIjDnWAe{s)T3%GyS39VKr6HZ(%;|c&V=q+Td}<2P@%zkWqHp$$2Io_=>T&s$svLRe
zS~M~M=TkF~&bOobw!_K$#^&mKk<RcQg{Pt#W}$QSy-0^kUGUoCOX3o9^}Ua9`Dnx?
zrb~tPRKfYw45YJsy`iew8V+wbpPGhr{*0RM>XM%3fqG*K(y5#$IGi}pbO`E=Sr2jf
z{7--RNx88WOQ<(yAf0o1Cv7quqjjO)n1*zMw%ffi7JX0w^~MyWGoiFq<COJ>K&Urn
z)#369a|wUlt|fjM>Wvvlhc~`pf8k_kI@BA}kPiQHrA>$W&YgyOV+zs{49hb7mr(Zv
z>Wx|d;qu8B-%5G1caI6w8#9njZ&|90iiMdA)Em=~j;rDye(SyW;-TJ{f^?FcehxET
zck@HNF{>7rkH~3V&0Vgadf|L(2GR+=Ij@}hS<C^>r=}sD&P}Od&b^zr&DB36ok6NW
zk!GcB_FVn*16)2;qr7{n4CVIC)juPhq>~NR>K;Wq;hbw4(rN25i89z0K!ZAJ3eqX&
z%CKE)pCSe4T(fF$`ADwPOjvTSI26vgW+0u`)cK5C-J=<B&NU6`Bs~0JG^MS28P2(;
zARVDRCB80)G)Fk+nspzS&vgmS+ZPgO+o4{afpomA-akBX^;$F3tJ9E<#-&jAp7iUR
zp<bPWbat-cj#{y$z6|QsS@&@H3?3EUSa<lC7o3;PKsxcwky5-eUhm<&Y#P$>IIyhb
zhx#rlI4_%mbhf{ZH(o1Sa~$gMS$A>ytXc8Pt%v8B5!B%`kj{yx$0at?UA^GEY#P#W
z8r!C~W^ijKoR>{OI@GSHtjYOjZa`lEs~VS&*W&hnQL8EQ;Jj=G(mC}m^6uGEswkY7
zO+z}5JPO$+X})c6UN!~k$g1jdY!ccx4*d?SJGgx23EXqJwW(YP&dX*X9q)Df?}mH4
z35LE28q!Jb?%=xK9q$b1WmAyOo98JuE$`dk&GlbY;qtj@l{C+Yne}h3{{rd!G>-m{
zlk*|RT>k~ui9Vf@CSdMA*MEU@V%FQ9`2GA$jHG4LZLUR;5v<$f@*$pA`_uIecgoJC
zd*-d$O#PbTs$M|SA-;!GZ}<hb82v7f^F#MZwRjOl50Vb?9Nu_Ny?$OwKpnl=MTsuf
zF`!M-A&%$8qowtlqpHs#9}bcZ@x0n1)zAD7?<Z`9e3~lB<-CIM>eB6%lb7=9V>LI=
zd?>6fDELb!IUeG?zIn@P7eyU$f}E)&9X`T%O1k6w+5~)=$9MghlCnA)Kq2W6$5ZiN
zk@Ck??p?56ERy*U9i_L2w~7|`G>19W-sZdcj>SMax%VUL-dsA7k*d;mV18ZN7aB>2
zxbEr?>D>iOOf%Lkk#Ya9LF5>fq$5Dcd5J^CN7}vlEA5R|cPtC8P}U~tEFd^-?9`#{
z><y+AHKu1rT8I=`hnwKE-f0<BOo%=QeOqMbMO?4)Z=BX_u^VThZ;O44+;u^8q|3H#
zH{X#j2z^^jq~l*y-0?neI0yQ+=t$>MTG!BU@s*Fzw?#!d+9$cf{o1x`Lf;m<0+-KA
zMsRzlTx}BcZ84F~;cec-VH4Z_gT5^~(s{qk>`l<$Yu3=WMMXNVdpE9=Pky}@`nK3N
zarq3h)Tj0|_P9dd78B__FId}tfYa9k`nKpuhhlwkk?g2$D)enpkq&h@aFJczv0CWc
zVwdCcaqW&(9=Rei5Bj#4NT-o2saa|PLks%0=t$=Vcl4XU4FVUSZ;Og_ntG-;=Ng`r
zgT5_x87?1nDc3|X1FL<|x5Y#{a$B#>n)V!*fW9p{(iu^qMCFACcR=4373o}Pw}`9_
zt2c+fEp{m`pWrixTX|P67lOVmCeo2g8JMA}D(-;3EjrTSkU!vkJ7J$K^led*4mD_K
zgTrA<Bk0>=m*Dc5+~FzRs>;6#`nH%z$7TMCYl|`x1)*<?j&#;FcPd=}+|CPqTU4Zz
zZ*=PJ9i4T;(6_}d#^tkMqx*5Q4oiLL+hQUe_w!A`;~%3L(6>cLI@_fEmuPHZynwzf
zD$;psRkbsw{AnokZLy1R`KX9ASpJF_)`z|=CerD%O6so(H?xMmEjrS<`gd?BYCug5
z`nIS@XG?0{{fy>WD)eo!Z{YG7+hHIwb~HE@`nH%z$8g;5#%44B-_W;3M><Qn!@5$$
z>q?++i;8qc<L`~Qt`};CzAbhkE+4!8??%mjJNcn+i-~l!R=;PP#0>6+zAZY^IT}8m
znBzS875cWQNatDo%d5sOKkz}{7P|nKPsFafY3+Oir=V|(iF9}^G8~yVtNqmfU*8rT
z>3Dp<Kd^B2+!E;9q9UE+2d}keudg+SzAbh>E+5^B-48`h=;}h>78B__TF~e@{}%Nm
z^lj0Rj_)z)#~1#-IRt%MRHUO{7bI`lDDDA$TkJesK3|5cCvV9`)I;AE6X^_`-QUvK
zX?6qpw&+MFt@*#OZ270n(6>cJI^Fp{tEx(6m7#BoeI1uiL~Tf$q-2c>^ldSb&cpU~
zDa#t0$DnVEj&$rs9t|1t1jj(%78U6Xa(O>ZY_hb2zAbhxE}z*$HSTLA%X6V`i-~m9
zJkG9;+O4=2`nKpur~Ul<ZBCzf`k-%%igc>iRrf8Mp#FirE%r5BJ_-#Cd(Hdvrr~|>
zOr&Gja;%+WIFADTUv#ANtt@$Aj(ghNIr3Db<L&$<OS5VB1L*%^U&ZB9cF$^)Z_3vw
z=>K9Ooe6b|yM8|}{eb>2I?}n`a^c_X=mQG$ZBdcVxT_?0Y{v6+=-Xmn!R2GKCZJHa
zqJ0?pwwOp~=}3gS7L9i$^lj0RP8nBx=RrfsROs8HA{`Y6lV_LjCkR2`7MqF7=aFZ+
z)OfhVYv|izA{|EMh?0^#TM+uT=t$?=%4>Q&X9h~4Z;Og_w5)CnQnvY<L*EuV2bWJt
z!ZMqqnY;3!Z;Od^UOKpZNY&PEg}yC1(%E)b{&v@`Jz>zdMMXOI6Jwuj_lY)uzAg4;
zTt3b>?@e>qP9;L$78B`w=}ecpp4qV$`nKpuCr{_s5!G`EZP2$xMLI=8))zk?J2n7)
zTkLFHJ}-SZ4V1peazo!16X`hbb9uk7H0u!bZPAgA)Z%>C$(7O@p>K<dbgny#I%{pd
zZVY`}>`S<O=J_p1Sb6&2W9ZvrA{`yUOE&+y47H$di;i^e{gK_Pqcc_leOpwdW4`EI
zLAP9`J@jp{vvB$7-FWFHyK|m9^ldSbPOwb_O)2+G5%g`*kxtNs>6HPuD%L~a78U8p
zjnM_8L{saaZ;PFY%jaaauVd(?)*0yAVj>-HE|oF0{eP37Z;Os})am-kmPhJypl^$c
zbh23cjJY3J=0e{V`ywtM!9%AfGi03>L*Et?={(<mw4&hz$64sxq9dLEmiY)Ke!L_C
zeOpwd<2Uo)Ym1HF%b{<J&A{bjd-;uN{omVbpl^$bbk<z=`trggtq%IO=tyV&(|5aK
zf9(7UeOpwd!>e{dU7+bw74&VfFW~a2TewIgYVFOd(6_}zI!@bPo~y}tE(LvCbfoj2
zYv<_3{xV7E+oB?!cjoih3x~6RK;ITS1DDS_+PXIfw3>CHZ;Od^deaX}lx|)(3VmC2
zq%$kVc(yOGv;+FKs7U9z&3KdNo11feTkP|=eBKv6=u!B1><090F_BK++L3C<9j=wo
zw?#)fQqQh$|FbpO9s0JYNN1nh3DLtNm$yRS7CRl6&-_@Ai7Q1}Z0Or!BAvZ0_Iy0~
zTF0Spi;i?IEfHMra^RFH^led*&O2qU3^vUt5&E{+X}Ek!dn^x6cy0U$eOpYV(^Ry-
zCrCDB4Ena{Naxz-;h?W;ZB3zXi;8q&#HQ6~a*ueSZ;PFZ%f}>ml+&R3g&_28F_F$%
zhpPXoG#d?|Z;Os}zDIo>y0lg}3i`IFNXPAPndg4fLQd%0VxPn1qkBa9%3kJeb?Dn-
zBAr_W#Rtr`^-DwF79HtWBn>CN>o2K-zAY-!sg;*MtIw~t5&E{+DY$&Z++!?mUer1V
zeOpYVlbrF?q&voh0)1O_q|>r+9dmxA{xRs=q9PsE$(E(bh9>RMx5ZAz<+Et;XyKYc
zpLXcmVj`W@wTV{gsV>FPw?#)fub!li?LF^v6Z*EONN2~nl0QBNrK_NCi+vWC&*ns{
z{Vki-FGJrJ6Y1RH-e4(aRBZ}<TXdweI$(F>HZQwo=-Z+qo$-g=g?nE%dO_b7I|-K$
zS5Cnvf16Pe=-Xl<9Rsd@jq5pIwn5((9qCj~{PZhp>{W-pEh^G^vD!{<&(u?0=-XnS
z!R1r^IN9E@UEw42Z84F~vomFC&zH{=fxay|(&3Qz)seLLa|HUfs7Ob?Zdoohgu55|
zw%Ccde2Pj2Tsh;F)Sz#RiFBr~725B(TIm9PTXdweA;Qtb@;;v}^led*&iRVRS6P0l
z|DbP+oq)^7Bi;L|fq>^9=-Xl<okve4t!^jLQ=o5)j&xXWcPZ@dt!sn6Eh^Hf8b9H7
z`9n+^^lh=@artb2z5V-^rIJI?x5Y#{7HYGHBu7^8L*Eu1=@bn|Mb9*)w?p3+73t`Y
zoc7~>b5RNUw%BpFe9GrruKBCuuowEam`G=QUb`Z<*)s>|+oB^K9@%$I84sWSCv0zU
zXyW2LA1cyO>T^h7ydIJRhaHQ{M|5Y}+M;8Z?Z9Coodk{kcM9WtGT_jWPRgy@3x<5x
zuLXySbaL3eyKDm$E`Y<1!R2FSaNgwZhJ(T2Fp<tc-{_HJv#}1~(2<UjX?Jhz>&1TH
zP?64zZL8Gv?IpF~u%mJL@DyxVvGaAzN^qD+r{8<2*9E_0HQ>;Zj>+PlyvAVpJK#`}
z&Mom3Bd4xwd4a=@!sYY)98XKF%a{^4Or*1C|ISvblcz2?bfhC6an5<<#W8+xs7UAj
zx8@7%++V-IVMpTf@e2OpI=%T>Cpb)`^RHBdgHK<c2OK)mkveh1rsy<#8XPLpY5D4J
zN_%CM4G#M>E}xJ+?^P)I-gDOl6X`5mw6Nq=xegP?Lq|H3l2iNz$vd>bp(33VYg)^H
z`g=@)!#;(}$3NKM%l3_&ao{kK&eRR=?{1Hli-SW)Iw!|Due-Uu(*}o%bapI#Rw8X0
zei9sZ1TLQ?*)eMhR&zWBhlzCZFN$@!Kju3G4jt))csNg`?YFK6hl+G)B^xH5C4HF(
z4*Mi7AGP{@U14#}3~-o8$9lfv?C0{oba3cM$N#(AX3Lk;ciH~Nbz7}A{-Pos)0#Va
zv$Nm!fx`~R<rC?6UQSi(V;wk5q_cyQZ%iTjND?@7q|^WP$GPQ~Ps@TsMLK71oG;sH
z;x^~7PvG*o&QWu$#qd`GjE9MIic`Z!f9*CZ2ZxSyf(o8$X}&#R0S*=E$aeSHx43N!
z2Zwzem(PNfNlu0Yj}ACYq$8lNqqeN^&{uHiNJmRQH?**8-6n9TNGEB2cF<|F-k0F8
zkKyv^$yuV;tgs-gR(I5RN03<-6X^(D4(-1YFz(NNmB}m-{xe7?=@8!!aQ;Np`=8_g
zoW5;}HmdQv7_CjxA-+GM`GVk+>}45q*E=6chxmSg*SE|iebPT&ft;I;;&R@yLm^}4
z^KO5bR~$))IIp1jzFiwt1LI&kmLwhGyzV`lr&SjEauggPq~kOkW0A_O@Fp@fW%uH`
z1y@^-kjsZSFQ2FK*;c0cKHxBrj&i)b;br!412}Y~^VNs*!?PD%J>W<qotBKltvAj5
zzJfCrhRbK6l41B7_s}44s*z6G)0L~$x#o$06M=N>to3<k|ElqVV}x|>MT;&g$!2JP
zBZPFs8*aEvy2W#W!wSXa9C@HB$$s-|PjHw>CsS_QDXHUG`@r!)I{unjKTq5(I1Y{i
z(itdPEi?4jXb(7(A-H^aVoJ?}zNuaVrw-{v74V97#7o<P6NhwE%N}NUNfz%0#}es?
zy7sTS!#?5!4h894Fu9&BZ{KrwSx~Y6h=FJzJD6O~#QU>7=NnD2^c)v(m`G>f#y3~a
z!Ha^)g>Jh!q`ZF6k&gKTv&eP%!fJ8n*E@b1*=0pVI&Zw^N!x2(WbH`m@-$MhPhkh)
z@_BLDagFPX^hR))NQbh}-nuciqB&4*^o;Kzv8QyB4)Hx^8P0svyr{<-UIPyQIttIl
zE0A=E>)vu*XfXeJ)*W!h4&(Can-`WoY(D7(-v`T)j*0r}vPPzE4mbfw$9tpwf};O9
z<p>-Fq+>4|cBi_7Rs_yiATFOh@9*DwYZW{<o^qsfq$0Y2cTjuocm4pRb9T$T(Bq4*
zUW0ilAe|FSHvA{ids_#bu|v3g_=4<qP;19tf>VxkUQCW2YWuc+ZoLAKPJ4EkX>!xP
zKp2k#(viI#?!QVUxB{H909-z&Q#^0%JRSH5oN}ZivBbq^!x~EsZ~~A{yW}-dRqN^h
zpAXXcD8q5lw4gr##xv%R%jeuCX}*=i@-M(CM><QEygCr2_v|@10Z7OG=+~O%Uv~@#
ztG+SO+v)aD0qOYK7C5xercGDhW=G!|d#pU>hs!5vGW*O{YKZo5L~-Gph9<>wk`D2E
z)42?R9dy}qwcvyy9S&O^-IepaR)}}BO6mSRwM!f6ob+3tU(Db#1cwjlsJ~=KbT;yr
zg460tE@xss(F5J%aeuRm!C@esW+}VV8T(x;z@a0Z?gp7In$DwgaHNq=A5~eW>&es<
zIAcDzd@lOt+3X(^J8;GP?UhW26wYdr4)JqKMdM#T{hj8b;DjNa9<7R*KBL0>;3y-V
zXZbpB^VXWHgEQ$(E+68&(oK5We=6N{0;d}3{K#Mz*N#qo1SbsXG~52NcZd--1xFd_
z95#IO-XWF037knUTt4D2&FoncAsfM|MmiBy{GyAxUvB^>4C$OIy=@r~9OMX&GSXQR
z*6R2~fOi)-lb*PI?pmI0%(0RR0;d}3{7iFjwtvF72~HT&S<m9$-ZwFN9vo$)bHHuP
zZ_~RNBXA}?aQU=lN?MP3#&&{Jjda$S4mi|T*0aC~Lpsj{qw8nmf_{RdjCB4E*D8ox
zWx9Yf>5j{1R$zecaip_he*1X%@s}An)ktTBzIo}<Nam^wM|z^{p1K5tk#vaf$1dP_
z`LQf}vNihp>1U(AXJ#x(I>h^`$Onbf5v}eW@cV`k(mA6zx^yP#LC*s=YuBU1FF#t{
za5+br99S<ZCmh*c+`6uO{pF`ANaxIVg%DXSwUU)5kG&B&Sgd17(joqyAi3u7U0&(a
zoLBr-i>Vs8a8OA)#GJo9dv0>wlGOqZ`yei#lG0_>H5F_(aF|Hv!}-VmzEK*4IxCmD
z<)vmx&`CPPeHe5&PFvn*b^$obNJsnkq9eye*0q2mgmel@@5g5I47>wp@Bq1-iSw$w
z%UA!bRwy5wI;7K^d};BDA8U_*!$3NB8e7NoZK_v+6M%G*uavjDC7jMb_SJR#;8o3V
zBa)6V;r-zQM)&SEj0AbYeIt&fL%c5XSl=%!nl@sCLv}nwXOs1p+NrNcc){UAj>qj_
zerp^xoFAMfS91G@I39Pkk0xg=qR)d9hjc<phi>NA#V67OR&X(*j|v!(bnFQ0wOLDS
z#Qa`lNw2QTzjdYe*EW&7zKGxBI_2vRd%Vrx(l*ht*TS#CH-)4_Ja^#zV(FWSqCK~4
zLzA0=Yx^7HNIJxv4|MO$SnofvO3b8r^4k@I^F}0{g@k;T9Ee>QC;Z%5sD9Il=b3|z
zG?ET+JT>BrB0IQ5(tr3j6h0csyiXzNEGCR6x!Sw&Ro>StU-CUH&)AM6YLj$`<B1NB
zb`<IO>D%>j|NKw$MWZ=LI=qDO*#BBuWTkzNCtj-kpk?sot}&9=7jgd_PTruNTDbX!
z<KnCHGlDGLs!2La3FBG$@j-4^(EM`Q2Ps01ABqIXJ}-#*RGqW+{?Fp2z{tyyf{lXH
zzO5w3Lv)6ZUZT{L?z0bleSp@RV7Dg)>1>pkdHU<qjnu2b@~eMY=A>DYbQTfvS$5et
z^3skiDcwCenI1cKdV7#`h@XEJzWaBtW^Luag#5zO9^W<klu0_od@}X?8tYDW*`3|@
zK={so<1Z#j-p7b_DWS_7Bt>ktDiu5)Uw(d>TMUb&L)?d79SyDY4)NPIopE=F>{$Dq
zNzx(CYwS#P?g5{|f%fy`r8UM@<8-7mYIGpKOEOc&L$YMEZ=Y2R73q9iST4c0FfG+6
zRXAKK%V#NjKe^`@4`Kg!&v#nx+n@MIpu}gHNp6C86G?}dk5&jfz>%_N@{Ty?!NqZw
z_u@!8#Qm(-NsAH{c|tkR>$`67z^zYAk`8g*3l!xm^qo#{zPOWR$I{ZV^dRXF?}s#t
ze|DyeYeTH)k7kSCf89qT=@73kGi$z_!O>ms{vF8wy7$$0YiW|sI>LI1|MD38!}0rL
zOsvt@1hH%f4&?sPfAOjOE$3a0*yO;^D;)9_>PU`<xb7$34(R(|6>w@)8gyt_oS7Se
zbfV-A^f#ZEtd8ikS@v_XkD`rqJZ@gpo^)FGTv;P|e4A<6T@I2C@&2Q^^^gojL;Ud4
z+b21fe|of??LzMQBIZLK8{w-t({VTC{n=v6`;06m(%GviFB7=6d*@nJ{l(AI2KDG9
z9pZlWl6}TC^6vTqJ>?xCiW%AbmLwhG^;N_p@iDsNx17}TEbZBC-{(_EI>hl9FQDaF
zdrca}WtpdCTu}SPN75mV=dPZ9<))y>qMw;==aPi^f?Mgh^|D@UtL1F4AiAbi@N!(g
zU{?xBhd8g7GTV3_8MMFuk9YG*{+^8y5hNYreM8Q5#d<M;FfMVmx6WNp_%tm^I>gW6
zW?`dSw;z`Oc_Pp*hc8a}rx8hqxS#9KNuP8}t$WaN&`b76jgvAT(plW|d)qFZ>MMW0
zxLm7}>WOG_CbwS82=~K7j{DuaT^QT>Vjr4u8z^>@&4>6q!1i%Rex7c=yE)Ico9Rd2
zPM0P*FXHoSlkB+RuM0V|X%`z;q`6n9Ym;<{ImbI?8pK}<bFmv1*Qu*M<itVJA)X^P
z^lgpv9d2)#>Lpnt_l-B4AnOpvv%6TX-uUz4Ws}w==>gpHHS0*O7ty&cbfQlwZLC=K
zoC3A$Pi<HP(osni=v6+psinPef8Upf236W59pZhya|z>Kf@$tG@xAH4xoTuzQAs+)
zdA+1s?eowzH!aoLQDD~-{fNDf+<qoH3f1XmyoP6+>H?o%y?i>*hKY1q*khZGuQtiP
z%4}$IsEavEC+VyvTwnV{k{yh4$K8|rrmv(gefj~LkEmjJ@#C)U>AzkjLeI~OZ^z~{
zR(96o#?R{WKcn_cFV&~M$L6C)oBiu&>bYy%$i^ef_e2_!&4-_m&q#Jj_mHuyfV9vN
zL3{P1A3aFsOniP_$?XVKJJ9mvrX@2=|L(hG3M3ukel|=QTvE1Pvdp!v&{Io+Csl}~
zBTbmsE7g}9H<h&Vyn879=<dDf0Y2n)(W0!Qqws3c>Vp2hV1uI(_Dv+mL(FI6BG<Dv
zK^IDcqdqE5DR%LsAf3knUzkI`JXwcCIZHPO{^Fw{ovcqAw_d*$J`2D5QAs+)>;0U)
z<a2(e@-R4TC)|BwrB$fehJEYyfx|>PQ%x6VF5OfJ4i63QPSRg6Oh-C#^}Bgb@F^Lw
z9Q9<v#ooQABAv(xn>YF?<0osaQ|onq|L$cw;_?X@TReY$?S@s$BTSz)n0en~A{}wr
z3&$5NeYnvw%ebl~{cI7Pq(j`#C6TflUEkDFw{Cd6LNO!Zk2Fb#xPQb&pT9lBHfWp7
z-`&46K=6OQh2iq4npF*6B68`oam94uQg=b!0;KbgA;HpHYLm2&`)!c=l*4upq!X9h
zXwWB<Xz^;v`u*J9Zoj3G4&%Co=a$_SH8Y>C**JgD86LF9<+D*=C9O4N=J7E7%F`9$
zrBwwa9pe4j=2|j6#<<QqVae=Jb@#2}IFb%=-Tgkj{-?+hbFDqsJ?zlh6NW}49pd*3
z9h)!LKIh7qRmQl+Yp34dN+IbG$Md_Za>G82)n7V%GA0Ljh2vOu<Z>pCXF&AA?%1Q+
zmnV+&{<c`jlrJFZ5XW<3QRYBzb;_=;gRf>qrhIEXNIJyN^D`oc>9fV$R4ZBO)rX$S
zh((Zeh~sfpF*cRx9eX8lmS3ypYA{Qiq(l6kQbH5^*cLMok!9gvIPmT&n?lkdj>o6{
zqtk)kOFjr1?p-nR`N}31jof+>oyP~qO8L1y+LqY<3)PJJzKDTzrlw|0&1#}fEC@bP
z+2a)HPb29N@2mYm*QWW;G7sfQl^qGsdbya2ba=BSn$vGJ)o`>N_PX-hym-(Sm(Q+;
z_J{2v4eoLz+}y|KMoTF`I^7SAZ*r~>N_g~EqKuF0<7N+}lk<Hxt$k>F`PGIUktg#%
zluDCyh&i81Iy|{a?ZAsSMj_9f-uM0*+l$MG`Y`EW%s1~t^^UPx!SnY1EJr%ApOi%T
zlRW;~JjssO@Hys707-{<e{NFvq*Bwi-&5ts`X*)#wZW34L%c55hMQfrp-&h%7CyK=
zYW$ZXMA9MtZnHmbwxdgepI`Z6;`PbVc78sR4skrn9f8XaUfO&)X+$+tWi-9H$%fo|
z5&vGWGP&}rldhkY-#=IFn^$+vl#_Ib<4LN>m$v^Dq00C%<Qv?$Gbw<iL;Ri1LS9|P
z&r5&6e6M_}4b5{4ouoq?k8a_%Gx~vV7>gdP6!sWV6rqxIh~Ed9n&ns8s}@f5i$CzH
zO=vTeCg~8zb6RG5YPbm7L+bNw^<ay@uE9Oz){B_Wx38(Glj<%@DDs})&4Z1dStK3e
zc&uelEl3m>mKi_le&)%)i~ATP9pZj=YwHv{!mXes|6I%exTEg96p{{cJPU@NjH|x+
zqE{ZK+bI@4R%3~Dt_~bnHuUJ;fQ+R>$@elRNg<@u!MdFn&Ogw)Mwi7EY|&cSYE5pv
zi1V^zxm0L*M$&W=&*^c!*R)JQI_A0OI__-_Z}3l3bW2i>I%SD;Ubo+@ztFn%g+bLG
zBOAM0Z-tPK&a&?!6(%8xlJTn)%qAZcx9%pF5ApNijnWk@!ApegqpU<-5*o(EnIs)z
z&cR1k1Qs2-eQ&;NvZHAC7A`tThj>49r))8;KRKD{VjLjAR@dt`BIyvHr`2hTj(jry
zYtwuwcT1G&g`Gkq9pdLh$=z*VErc{UtF=-(Hrw4B8nhypGcliKZ_J`AV%q3;8qaRI
zUS|?nK++*z?|U@Q#bx*M)fYAid+y8Rc*rE_5XbZ1VwIlxbc2))ufA-Y@9DgOPSPRn
zpF8(vZuVY16LUSifa`U`N>K%p4spG9?)6!D-m>sTM}o}nV{$*&Oj_b{R;#L6R%*I6
z<^0HFo)4pelGP*~;=DpO-1wQi>HwF(q+7SS5>+IQq(jWvsW5tX-_YfvhPI=5uV4B|
z8j*B}>;A8HMebTp3$xyl2`8^W#*{Wmhd3T~vIO7Es-TmR$2KKA$ftX7Af1DUW*er@
zId}asw3s(mxhcQSg4}u$KOg${&I~I_E_(G({TT0}|9RaKlce*%=9N9!GFiN*MD)|N
zK~;+PdOAsmc>g(++t&1T?NvSb$;2bKQ@u2eNIJyvxLIA>6j&x*tRYu$WnN$THa?OL
zF(2zZT_$Cn|2J=$Gln->b%Y1a$>mHO&!6+>x16yN?Et3$>3oaxy<5baxw+*DJ?<F2
zsMrJP9Cv&+cw~cfDLB$d=X}Wz_R)<G%)l8m!{sA-Jo$Lq)@AgQK~)zg9tf>0Ksr;s
z%_{4EEgJ&I1L=qbX_UHpr>+1;8tJTD{!uZcGU>4C+Ft!@rK5KScj5B6W*_vmd3IAZ
zI0Z<DQ?}lBVR2bBI37qxRcf>JXBN8<9BHKUxjMh+HS4Y)ID@9Re2j`?6*X=N`GZq{
zbWU2%ByK$$oC}Tz(h2$X)3f|f<2i7ok<Rd*sfU_Vlk314G{NQL#3)_<SM~QZa0-yl
zkM5iC*99JWgX4j8W|&i}-q6p-fg_D{KL4~SUYPW00XT!kxO{jh{TFS=l-0l~Ksuur
zYEGvIwo8HIfpjzywy^8IiyMO@jdTRHY}frYKdTJRpb;*g6~@vhJ_i2V2u=ag=|9k!
zlX`NgI5-|iCt>S<ANCpad;&)r=~VCjZ*!h@Ge0<khPZqr2NWc?vU2|a{Rip1-Rhw_
z{5T^N#^Zr>bW4Uh@+EWgz>!8e_XhQSrHib#fHP=-%je|H%ES8G;@^T(fOJHupBIL&
z?z;w#2h!1AbGq>8+O3J;NF$xcW#$1D(NAi?8Pvz+v*WV=u&T8|3pfQx$3CXr!<FmR
z05~2<XPMZ3MarwB0C1#{j>aRYiN2FDf#3}4;quuQbv<%Ys?q_R0;J<Q-Ya(MOpF3J
z9!TetovGu$sO$^iNFyDoiX$6;1noTv&Y&(XpDmT|wD+CmHU*~u=`7)F;SoQVn+NYp
z@jyDWiY0BHk=j+@NFyD}!QTxv^@^_MSAWreaSX=}>frKmxypHQjZ+;zI0Z;2_E*=+
zosAp*X`IQcns;y2ArGW;dS%7~ui_AOaHNq=NKEUbgZCv0ID<QJ`8<>UsF8K{f(bYU
zNas_9;C$U<_mgTazuMKgXjIn&=@hF)I2`A*tpZ0H>5Pj@SR^PtngwT28<&q>Y<txX
zu1lQY6d)bv`F$}L9p=53<~m>0dQaBTgQP?Jy>8-%$u9BmclH^nxhv!x)fOrsoln#E
zxh{IHs!H#zusgS<a`B`VE}y$OOG`e)x0}HGd#g!0#NS(Fbv@RPzkhOlX4Q~thx4VM
z43ZA<_ZGvp)BhIqUfH3p$aS)Ik6#20>Fm*znrZT0N`dvFkaURaRr8yfze+?~9M+4i
zNiJuill-Ri^Nq|e1F&8NBpqTtHm`Q@hU{RtL(U#ZCx3PCoqd<Ac0<n6NN1@}pghB7
zzbNE9sDaBzCF6tKqoeQoA?I?WQ)pBdQhBQM0puJ;(jn%&^c>|sf$NkA$XOZb1Rk4B
z=q=Vh4>?b&lgo!V9`Qfc_s$pH9fzE&Njk)RxJ+F1TaMHZL&!M->Flw}UFA~d5)U~W
zk#vaj;$FPXx^UjD0?3&U>DYf>+q+})t4)w|lNv7P@rz%2e_7vn4mrn>bci|s^;Ep!
zCgWBKIa?x~w@*jf&s)6Q2{}_pI>ek!OlDTx&JS#boLQ>4d{iF_5AsP$dPB|(q|=ge
zF!l7VnDdY`jif`&xi7mY>U9(EImnrcbRHjzI(>X<#0hd9RKex*x$xZoeA*~zf#+!f
zNr(764RsyWKk-HRA*@#%Nr$-Z6@^8%ud7GD!g?7Yov9g)w>iqYhhV+<NIJyz;$I&o
z9k)IAH>_8yGP#_IPHuQlOA7yEaab<~Nr#xvoega-<+C%*V7+K09pZZV2){dM-D>g{
z)=QbBLmbb`_m9rHP17}Cy(V{%%ZKPJda1u}lP-+`>s3wCA?Ez9MQ>-qX_FRMuLz`b
z@zC#{qmpIyuwF(a9pb#6Pn)mQ@%pC=IrAZ%KgSD=wbP@y;9Q0#C2~0v^Le@};3+3h
z>Pc9y6p{{cUiulD_LB+E>S4VsNjk*wEQ{^y{(Q!N1lEg!be>oAc4btZIt}Z^-cBwb
z;=E`RO&<MM0`g$Jm`KOY{FZNr^MY59Gac!y7WjU1z&4o!a;B1Wh&jL2TYDqC^v)f~
zd2k!Ke25OOE6-h{#zQN3EE@KD)+(fyBb|lIIoIS{S)0Lng^_fK>m}KLTVPD>_b<2~
zDwA}G_rpu?a|>cD<vjiFEc#J;W#J|YNr#w^`AmqHj$!}Y=N9%>ayb*{r5$i3$SLd4
zPuM?9q$4(vV>R)s{#l;O0}kKPssK7khd8f|A>$mku6J9&K9oi}8)SR^?%#S74*PIS
zkz78+@zk8z^wP`E=L77+YNTT?<z(xlv2-Qu!w8ZNalOharOq~1OijXlLmTPvW`FJ1
zDOa|D`V9_}4l$pJbh$qjn+LuNE%i1_X>)zjw1r&G#CZuF9kZ0Xa845TVI0zt>}gsm
zz~8M7`_PD_L!8%#T;>&<G?nRsb({|dPg_(7k#vaj>S3l1KG-S0USVdN?8E-GJ6aWR
z`K&ouO4F2@Du?SLg``8Am!0xQy=8La&)~YCA)WD>ZT~uBRAOO2Q%O3+e2yJX6MIBU
z-2nGhwmi9fi1$^|nU;QGeY;S&F6u}+#POJFS$r%DPhJQ6Faqg>oZgcDl=-zr;KY)l
z9hd0qw2@Ad)T3Vsum8({b>|@I5ZB$D(|SVXH~%E8dy^cwoQaN3==?1~%deh?`(X;w
zsZnXYZ2u+wIqV-AN#}p9S9Ye%NWz!wx#uZKhd8eY$q!#M`tnU-|FAcc%ZE4~s??2-
z+PMZQa6e=s9q%rOb#-sc&*bgDM(f})7NR2^UIUNaefM9f!smG^Nr#xv%gi@}!l$?m
z;kp>ygv)1RSFxA<1Epd!v5DRdNBC3<NIJxNTF;#s{U6`xSiyZhjHE-H*B)Qlohm0=
zpTK=yo1{Zr_lO>iA2Gumf8jpQfpi3fE{03@lxV{_bafkXISZ`uN^bTnd;#~32$Bvl
zABXg-+~I1rzu>-Mgmgrj<}1xpb=?NnyAVl-m~*RMo1x|{g+{neTV-+iI33r~X_nt*
z5BoU<>6|RdezL>wrUL9kOOg&T=f|#0-bZ&BD`CATNasZ1nZ_%#`4?cl*fQkuA&#e{
zOjI;D!{sxqR{=?fxL$S>%ze@$5;tJIJdn=yto+vdS59q(^^!(9y`hgco#Ih!gPaGY
zartD`_>6uXDm@E1mm{5+vDUv1`hy!G=P;5EG3T$hoKoiPn9hNmm649g;K6=QiAP7^
z`86p;E+67}iVvQ?xG4Ve-1DLu>G0lsusW4>Knkv}Fp>^&KaXT`1$Bs*ADp|-lXQsl
z+BK+PWuf=qF4#XDBpu>-ex1rGXPAF*gZ<OAfn3f+$6BGxRcGtQRdb)mkWSIV%j;=L
zpO3>nq>*%p`5f8ztkCl6<NmqNV<a8oywnt~3_S^cYYqFEy`Ee?#PM|2KZ>PEc@)5Y
zW+ENcE<FzQd3`$`z22;J?f&~jI?}n-&ap<!Q2ztm$EZjr&s{!!_XkQXTo>$h<nkfr
zT%B?(_}%<~1lZ37NGE{0dBcU+5en?*0Hm`;X~VwOJF9A8A1ae{i0dv`<9S0>w|egP
zvB|aM@*z4YF0`R*x}BF{y{eIp<R)5G@u${eSg$aW4spHytbDa+EM>_jSTAj)Q}A=9
z?pxeCF<37?r1NIC-P)K`0aIA7)-|}Cn|E;!hu`ZjgzG&8=~UO<RJob?NEp`366pl_
zZ_D>w5TOU_B}CF8u2)Hh>TBsM)bntTDr+^le27j>PX6sXBYzjMUcON{Bf<TRiF9m@
zoy!a<e2N~k!|LDtLqa`}4$Xr@XeEzfB8*1?>AdGC+!X&NFdoJ;NyX)JuzX0B$55aO
z##4uMxDR-3O}nv14#pFQbhfDn*Gel(dcrxgmLwhG{l~YfVdm0{={4X8AszMlEpPG^
zn>fK~l_ZxlaXei2?;8rYpS%N33ew@%{Mx5duf_w8CDL)M30oq}J<$%15Yq8doGuSC
zitGfZbrmk3Z4W=M(mgoO1Dq73Q>}FI<O`W4<KS2#ox=l*TD^XzJ_kn#=@b{b-}M%e
z`2kMrN?blW#md&cQc#-@P72cTpRBgndFqP*IF?AKk4Gft!=FB5aD<SK`uDsgyj=J7
zz-e89%jf2pc;K@MEe&u|kWM~V;E`8qVq0?Odrp6g44Ae=I-J+seZAC@>OECLW`s6w
zpbH_L&TToN6|!oV!D(HN%SZn}$jYNZZ8C7qbqdlcb#1$P|GZ%NEo~pF(y?G;OQiEf
z;g^oR(a8{SgpdyBlKNlD2Gz3Acig%Rmru;YwV_YyIMl&OK|1~i)(FgOGYJF766pv}
zwssqQa>#|gV<DtdwepseUG3Xpa9SmB`EYRT)z?`nxfPrgq~nmivho5S7f0xesD;aZ
zEWTukbj%k0-t{*2djU8?NXNsFy7sJkTqZcJ6kI+nZj=7JHTIs#JZdFcxrdxmNIJyd
z=fCfIDVsdSuJGP&=3pe4T2CkG5I^_cD?9yL{F}pBaHNrrye_4@^{<R6IAh}E@*$2V
z<dLdImK^sYaH^4x-Pvp}_TM*Wz==RQ_ni&78th$qz%fEPD@5)Yeccn+296NY`JVAP
zs6@p%034PWF6ZKfE`<?SCxgLZBAtQPVuO+8?fl?)ARTFscarwsnjV9rfOP6pzUuC*
z%F+U7QWTfZ&{Wi^6&|&!;M5@<jf)Fs-kdXi0!|##QCTgyzL(;?7#vHa^H^c&rMQ%v
zncz^6&gF>yAcqG}*Mh@dip#nFL(|4W=4dZC1xV*`e40=0{+>(F&lo_`A%6doJf}10
zVVUF!jsnsNU%32WJlkZh-+XKdxqOJ@vA$)I=&K&95929EI;S%2wdw_*DuNS$bhf&7
zI?OIRF&`WSq!WG2cK!L^9cJK+iQw`noR~bcVWCnVIORykYvpCT<$LRG!3jV*d`9LT
zKj!_Kdw+`p(h(It_lLUQCJV+hCXCCcC3q;LN%PeeaLSR6h`gtd?Cw7|zzIM)4WD-<
ze^|#{1C9dH3AnT1RX&CF1Dr7-Ts}dpyFy({{Vc#KM>^kDarl244BrG!0MZfb_tdG?
zww=3=DIlHkZ(^kr^bIr^&zK-CAESr)N4TPH&-HhgBb`rrnT>v@-wH!NbpX;)e1GlY
zI^_!wk2%Htnb6<-KmqC0+nlgAkSmS;=xgy(Kfa@JY%wmMqn|?ccD5bu0;e451mp$s
z6fL|E2TlOe(fr`3>=*040vrXT^C+n?L&T>4Ajgl(nr`h!dB+5B`MjJ;Ft)zU*8qLu
z<w!?DI7mTct?m(U0+3FF!ikim*|?+NC?FlJkbpedP?0_0j4i_D!}sZs$Gr0@`=C#}
z9O;~mxXn`S40Hk~0O`D}`2Cz;xY7z71*G$#$wTbrDXnsF#uno8p%@%1wI40GDEsA>
zZ)9igcsbHZX!cY0>eN~QP5{zb=8(~E8v4K$90jD4<1-vve#JBtoH2e}KKnh63;y+L
zvlF>-$XSfVx3L`Qm~U>c-tPV1FK_~oj$DUw&GUADe{d9#j%3N6scX9L_`w-lfXip3
zPR1{=F;lWg`4)TUQ1i}mq+`52)p)gh>w9nlkj|ME%GRy6US;4YAe~CSQntWl-p$~Q
z@!|66mRnx+$1ZqA;_cay&6mAf%8|~!_8Di#`rJWq0+3FT=f&xuC8maf+_qiivWEf{
zNIJydk(NXp*mf&ec{q-jr!DQ!qH~kH<nkdp9$B+$#U@p};M5_Vn*H<h%x-YHgA<2z
zgg(zd{<%}t9~?`hv&ZW8jV!%Y7r~(*o$dFA&Yn=SJ^~J#2bZ(P@i&!=898UcDL^`b
zpAJm?l9MO|CjjY0zk6P|lCx3`9A%{Qamsy9L#MX_I2=ePbU{Scg;g?tz-i*f<-C5V
z#_y(KzA-o{NQZym@d{RkFclmc(iz!ueMQC5OTyq#k<QbV>Vxy{?MVe^kPDX&qxG?3
z+QTLG;FKesW6SSlKhSLv1t$#YWVD&ww|PBb1CBP*S#|pM=EzNr9N_RFozn@$qk|ij
z#=&WwkIT8@!tKUKtxA&MFpv(rbo8C8wOcMYbfoj^viuH3M&#UnmPR_t1ycd_%T^4*
zc*Zz!`M7PADEKUSqzRmAq!T;;B!8<mWdS%5NayqYpGmR{Mhd_&LOPGL4p2iigZaP_
zLOMy?KU$4;B$*tR`DiibJI=+LM=odL-_hpDNcv>)X*PgUfOP(Tvff}j7~um>7}EJ(
z7uCu2JoX7VMo8ylv~r)&talSQ6r^(@Rc+UQHu5>(407Od4r$I>ueN)z6r5_Lb6)uF
z>t_Fp@4<;fI%&F-EUwcw8sN~7j{ih%g+5P}C^*tc$Hw7TWif9EA2^e<Q?vi~AK_Ti
z|Mg$uelDvS`q!m1lMGH1(h*y!pqIVQHwhdD(h<FWIP0@tvpP5)NT(#DJnnmf^9yj4
zvCh;tpS?nr-Qe&cow^U(Wd5Z+@B@c6gIlk_DakeIV=gbjDL^_x6qP;p*A~*i2}3%2
zOFF+=x9PqD#|Y^Jy`k>yO+B{-917BL{*Y{SR?=~99}Z6AayB^rLR9(oTV)teHPR^-
zPBiA;u=pl8aY%<QxBcKJ|979kp&^}vOW&tSPc-C%BaL(x${f+jIN@sx&g2v>=YNI2
zO;*q*B6nYEWZM-io8LszA%5@PT3|Vx=r6rx!@n#=q1%d5DM+WNP~^(eeLLzyd^oD^
z#Z=v+A)QvXd5q~hPYGVfu@#3`^NLVOI>f){_I%g0QRd5kyusbuI3n9=oc)hn&P1n3
zVC#i_vC6eR*EcBa)zsHzBAxhK>CZk}9k^EDJh9s`GuDfabV^Qq2)%Pgez<1Iu~XM`
zjt5amI>h%3j9XN`>Rcr7^R-yg3->Ikcn+k~D3`KW_@8z~{e7)Vx`yAru>X?FnfN?a
zPuMBF+uQBurrov5O4lk*l#_Ib`?-UA+)ekYj!yoqy9;}+h+PXK=@8dF;tHn?hoW4n
zWzUF|NwbKdGSZp0tXZr%^MjrrD|F|PyTkFxKjiWup1+f-q|LC~Mf-inH$c0}F-3w+
z(jl&Uj*@=!r=OpGu#>Wjc~%%w>qt7pe7u7+J8tcn9P|-X?vXz$xjF*r>^$=Ai+P6Z
zo`TuKD%73&d$mbA#Pi6Wjjfyh!7Q>eVLr*$xzBNnLee4bpC3VN?$EngH*>vKX3DAF
zI?SFVw_e2k%%bHLbt;v2zP+3)`#b)ue>u|Oe6}M}yrV|l=3K##w&>T|5hNYryz(v7
z>J-H(+1;mhtLm)r{%AzfA?_c#$2>mEGK=;tvySV2?@8{JCg~8z6Z@Y=oc__PfmLy@
z9!4|%TpODpmosr6=5^UzsF+B3yS<pHn<O6dz8vX%EB5TT_?Dxe$5O_5^oRT20Hm{3
zwBeJ8YiB8Mp1q?()DH&*k`D2Dm-33?nuzhOh36oJq(jU{iCa$p+28dg@Em0Q#^wB_
zE}%=-ajPLb2N_7m@U!jGSI!=O@EoKe9h=Y$Ys%67aCi<<kj}c}9z~Tqv(6W3L|@BS
z44Yy7!sWwwb7gm0*(&DO-qDdK6uy-Vk`D2@$o7lao23;zThW)b-t<D{Upmt1uKJa9
zy<@Gz>b-H6e?x|Nq)9r&b7r3<DF|iDx9VFyS#>aJaI>KTNk@$E4SIu$$lJq}sj-8X
zXsL2}=bn<yhj^dw=5BqdFxItwX7>L3i)m3~0VKz>kT4$gFt%{Y?$y$zx`U&)g{k8a
zBpu?pxBOo|wOW*yeO@S}^xy8MT8qezhq&&1Iw$yzE=a5ssQeqV@^Q}+Ws>6|-k;YL
zd#Ujn3S6weapd9scs~~kNryO|Fn)%!&(fa@+5(CnZl$tsuz!-fE`$j=KUi%Zw9Lj+
zAVwtnZQ?1ZHY&;S5TB<Z+MTH(Z|YvZ49nX0WO}8{7|HPv=jEX3?9sejG}_)xWLPpR
zYfUvtN02bDA@O#TFy>+h6*WZ}3qLp7AW4UKf7WO)Zh3G0RkAF=_sP%u_IC<MI>dF4
zSTFD+=Qqc7$ESj}KJm0yaU>n$evWD|f8?sFv}==`+-)v;%<eFf4)Hqe@3cLbGn?5R
z9hsu?*e=(?lB7d?4(e2&4b>}5{nqnJ_tf~wq3y~@$9vIg#Z1Q9(Jb?CKlWH$NTZT;
zi2LxI;b6tWdy}r0dx8_~>~=pN`$6uySWMVI2iY}+UqlS#x_+P1oi=}^NFg~MV$Npm
zD{Sl*_cyHiaV|6WP|rfL<00<Dtg(w*E^LZUY07Nn=F2t@EhjlI;`J5f<I?Y|;`MHL
zft`PV7^^G{=?GuASJhRzR575JcX^w`=r(PV4sl-2JM%;yX}*r_YT6X=S<A(X1L<sk
zKRfv9dhlCKOEI$yRd?08adPWUTra;Bp||Wf%HNrF-!b3PH(<jc=@8Goeg2%&?qFx(
z5}Jhl_ASdKU!;(9h}S!v!7g&I^f@H&ds|5=sq13|NryPEyA`GnO?T&JjcQ#o+|tYW
zghtXKUSF<@R5uqhJ^76Lvi>|&X;YIX=@9qftMl)TT{C&U9LcEca}uZt82e6cy%rI!
z)87_~&#l+p3-gzfNQ|L4+wzed4{;wRXk<5<P`rc6?FuE2M(=spL~=Ytr+b*Eq|rRh
zPv*bXu~w4vYvV{d#P#aj^Xz(D??bKd*Xs=5mG+C$Njk*OQHvA;HgUgw{yTu(Dp9N$
zRT@CjA+9@3p1N8(U!LRJ!sG?HomW3;BOUj%n*vVl^DX;0ly7(GqTWRzk`8hI=rju~
z&l`17I}lebp%>!2g*8TQ{}8XQr|!$ns0{=v`Ar-;B(N=4x{0Jid=AE5@jBt}%rlv$
zT$0eu5}Yb0=@6egX?c5G=;hw&?2l%b7A|;lmF&D^2-n5dW22Vg9TypkeCfxhEZ>>2
zNajrZ95tnuxA;Otc+s~-2OfSE&EO$>eGxzZ%#-u{uO`O+bYPvupiWAx{UFKlEFjFQ
zd-2`3S&bimE(<F5A2AROB<m2b)0*=5y_x2|y5JO$91qbE&2%wS77Ppq#{=njYk0Ke
z{P#xz9BHJ}7XR&anTV4QID;hjA#q+VQkySzwp9t9{yF@?<h*QD0n%COl5L}`U9!RL
z#V&`5sm9M9NN36|@lof<CF!-ks`o|N!jGj%I>h^-S8smdLl640j~min|GfUsLYbsP
zy#Jh8AMyCRe70lJg5&>bifasTkaUPS2OM#>A9)qLldEv_X`c9(*L9=h?qkI9WNb;D
z@6um8=AOx^XFU`x8HaT2C5{IDV%79&Un|OqHYxJ8B<T>J7bk9;uby}Ptx!eQKeMJI
zHm9j19b!J-n@d~|Z@0QS5g+K7RDACVdjyw{wdfTq_vLJzMG=Pa1-E6=3P?J{@npN}
zPp*EpG*}}_s6Ex6d#wjahqzuJUOjzFwF`W0DXz3gAX#ljfuuuxe*N%_l-C)FTy%1c
z&^>h{eitf9hd8g6jz!b*!lf@>^lQ&V{dB8me<PPO@i{pE<Vvs0)lwTY*R-dcn5Bm_
zk#vaT8A{qGm%)+lTjFxE(vdma8%NS1K6fNe)~no+NVHfueROYA|E6#ck`8e^4VnA4
zOn>fL|Fh`tf3MmlR!bwD_A*x=*@2Ut5-Od74+0;V3=WganK+(lt?7SildJO{SPuJK
z)d(>uKst{L>z!?9)EtCZTi&Jf$uc~U4nx{!x^<ZMhutdy&Jzoq1Eoni#Oq@D^R|nr
zpUqS6m$|R_Z4i?@HiXOPVY-CbiVpo9y!;2W#1+`<%Sk%K@$m8w1vxtjvy~t4S2#E1
zy$d7h5Z5d7;mt?J=8cCaf-AJcx^6ouBb~(Fgy%a-ABc+I3F_4EF6x~8ip!^S!gZX>
z@XpZb=b?fP%kR}yBOTMUlUvt+>B@W2kjB+7=o=qK(jk6d*6}!@adwrgu58reJRkk=
zw*e#_V$R#<?=<WEq}6(iQ7sf5{O`E}Nr$-Z;YuB$HVKUWm6GOx$2B?IC%@owcCj2&
z;j8UAxWK829VznubTvtb_&i<BDLNs~(PJX9>gM+scFpuSk`6JSq>AlcV$pno@!!@m
z(wREyMkF2Lcuw7s+V_+1aB=pag~+3K8e9~T4)J?#%)vVYlYGZrYBQSzJMUyBjt$~+
zc5+XcEV$=&df9(r$^94p4`+884%PoZetbwJvJ}~4LI`EwmxdxLLS;{reaRMC!;oYt
zyQnN<SJtGW#Gr+geP73xB|;)3e&7F%x6gH*|DAKaKleU&9@p#jJm<_gvsAA7WsuHP
z?v8>->-gnfCC&KE8m4kLNXNGBXz)R^RY8&X0oKpD7pKJ`oj{$T<U68Mb7wFo%um0e
zk6oIE>$7s!?opAF;EUqp*J@G|gqF)tI>_tdlf>3NY{rD@oCe|0p3<lyA4rFzfos$R
zW7pMa<)NA1TIz~J=^)Q%chQ$aGus>nv_pN75%^mP7)ZxA81qC!&8}I47I(&Q^iMbG
zJG#!u>%wkK^G&Z`%<V=Eu0|7qUzD+s&X1i7tarX|x>a6pXR0W<%YsMgAp10$emiuU
z>$6NFTRl_Sjf*5Kq~k@uQCs9#{5-a$@9U9fY6|icx<1JBXMFV)^BJR{WZ)D)I?U@b
zk#|oN%>l;^(qXr-A2c-_9RZF!q~n~*`YCN#kO?>#NayUJfZM;#wNBtPPQrD*;3t>;
zDEojQaAF}H<xAxFn4owI;21+X=cDt6n!Du|fP;l}h7$JZhnCS>0%v9dt`Bx8EZf@W
z+H2sHK{~0&^ao|NK2HM22hurMNb%u>MsO)`aF9;#bj$4<_b^|9Lk;P;x#y~%bUvE`
zoVIbe&c4N-4~LJvy8)aONJlZ0IZ8^yCLK6<NJplZe8VdC-)G<mK{`y`3kg~EzgB>=
zGzQm4eURy%zmS;*a4I34d6N_5PbB%>y$FyFu98@CRMq(sm`4lJal&%nNV8Q@1r8&m
zb28}mAgysS4mf>exXxjol<^d&`YkuSS9%8DKNu#WbddMckf@vy&pGXVz`;X0HFW9>
zw!?~Uz`;T~!53I$4U|>p9vttkzg_+=n>>oH4{|Si*VN>k7h(4|Cact$#7t?3C>`Ye
z{dMk4p#7osf55SabRuQL<_(DLWfx|&ht+;cy%tC5AfLzP_s1G|HPfB><;r4LEm#?i
zLFpj-C@9vhP#4~11P*BguJcllA<fxj`V(`8t6JYVC;t#29r57zawq<Nx&a&<q?7+G
z@I7UJ9m{Q|L*Fj!Q)|XRI+or_9F2EJv%v8p4WsLWJb(If8;U3M{`LST9MU=H6LELj
z@31lGqleN#9(P%xXZ!Oc7uA5n2<eQTaU{J7f5_|jjwS1#(!6xr5V}6ddGd#gJu5Zu
zoi>?gRVP*c@9#~8bTqVgTtbD869XeIFnI;kDeIwhI1t~*i5B(M{Mj#(IzGlfu6i7=
z+lSIY9(Ud2DxbyJJDltubvQ{F#mf*;I)@SSyt0hEJG5W!y6{<-uK4h|Z!;(z<m-mU
zz6F_0y$2THcvYfwI1%%3Ns2xc)TkwI$cNchU45UUh4TEdML5OZ9rkj5=;?WUFfh43
zsOX_M%KL>l!g<R5?~%0WDzCjuNEH4`c%nVZ`!e!(r}V3TjOw&Lws1VDm9moB_tOof
zgZ$jj=B(2W$5ImM#j)BD2fJ^KXy-wGulJ2pHZ#K6LO;LPEY5-Je5?=3d63^1q!-X6
z2b=2%yC+@Iu8^I>8bdk*P2(#IX$KVj#H$Q$$W2YjqjZp;k0m?&SUdVoc>A#YN&^kW
zPdBvBQOMT~zj?2R9(n=M+b<q}qRaa>)rRu?LH<606I*vC-D^QNXK$&Sx~eI|I!Xt*
z*ST6@mYkO9k+RgPgY;{DVrb_<I`zMlEBNWCCCA1DolAezs28A|2l+i3>y30r(VnCO
z!`<ik^AFa?r=WC@*TwPX^Dmw8AMwLq<<dEHmTS;HXCl8xOI*2OQ=qA2^LT7Bk4i4^
zXgJDwkPf@-Ws%CCl~=&;{oGJG$nz&F{9jN?UEJA)9f1nHYN}^wUw@F!KB_=U->3B}
z!R$E<_biu>FF`(!Z4G&@v3I?zXw@^gl1%+cybRLG<as^TJ`p`4-?%L;<RD`22I+Jz
zYIjv0pH1mFCbXqtUuui?c@^2`X?|{?jjmLn<GQi5@MfX;66EukDoM|{ui)8h>!R<B
z$N#b|mq9u%Z?$<cap%qc+64}mBwDGvK{{W<bKaDu$h;)U6pHmJ4rPi%I-YgDbLroF
zXVWR~OBHBL)-9pDpCX?(##kwX=tRU$5ud8_MtNR%R*BL<9xn=M=QrfyoQe-84+*6G
zII7}<(m~GSs-EBQ*l7J~aQ?0R{9yu@aVQ<+Jf)(YU2(Nf^!@z07c-gjnK6(KgNgkY
z`xW2sUxXZ2ZT`^&lTbeYAm@1%ZJYdlASVBG3&;EsymlP{rGtDP(<(mgK=X%5<wb{5
zWrf74bhOW_$j(y)t53rY-wyzX4dpyYN3Oi>#V5w~qL`9rQw8e_-^hb-&+{}xKbe~Y
z(^Y{(gmgaJP%?O`8)ley5MTTapZkZ0bUsL2#u6p91=rtZ^7*m9O~OJt(flK&-nr+W
z-o^CmhRR6#k_X`W6hxj0@%6f}r_cQCi9nXYAtIzxA5<qBR1rvDb2+}@%-Y&G9@4oa
zn?GL~Zu?eB;3JphqsR>`N(Xs94|6W+-#<uYJ0hNVOIo7;{Zc==K1gTwT4>m$v64|m
zm{kNW{+$#F(zz1q6)JZvvg42M_}ZnTM6p<u4)S^*H`=OQiAnX+7Zy6^-gJUR57N0u
z^}^lT>esQSm(0#h4`z`WAsrfHE5W(wFthpr_EKu9v6F3m=sF|!Vq#P$k4HpBD6AZB
zBvxZT#6mhe#wTdMw$>)gKaR>>U+kpOgLJ3{M$HU=Y++pfTH#(~sckbtIutEW=?WP0
z@^uZx;;$MzNVN5$>w|pXB;88;CNSKioA*o~)$L1d&&p6b$j*w#ibJLz`#)5ViaSd+
zq^joz=`4JFyZEE?3jedlLk<>CFm>XPj+l?$Ev1FYl-ZjaFLf-JZ!Ptp>w~;sJZid6
zQ~j6Wca_?S!Q!yExJr}`@_H|oxid8GdimMpPtAAxGB17&N9iEn$HhL7?EY)7H6eWd
zNgS8;6N5684)VC;N)B9~d1SgGSF39J>Vz>(EJ_FYK5l<~gYo7l|4tm2>OF%7*Yox$
z9ps+}F>s|!Ivs)Io;h_Ou&U+KC;_E|oadEOoMD~BM$*i<CuuXO_PH@ihY9g{%fgCg
zaB2YcWpH0EK<OZld*wo#!o$+Za&TYvLFpjR!+MLlk|BrvCQo>OMtx`J5XPZ&kk_eG
z`73h;7neW5KPE--=Wjp7KssKoTY{-}mj%G@)k)pxt}o;~A$DqyQ<Q5YfJ1<Eq6ClU
z+qbw$mVZv*G&fKv#X&lLpDKsRl!G0>!9Y6o`gUqsV+M*I!}s~9o->S-y3qAO9(T$M
zzpp7oxZ{Bn4(Z@O(;2l(bO-@Q57O~ud*q}NsI>|lHc02<p7w66i8~8$$enO~3Tvf%
zX_yNC0jB`cd8Zq+Jn*$90yu7v&ebEV=GunNEngTf)HC{d9g;`sAg_z&ockTI=dW+&
zh5FxWcD3bM??BfF>3F49{rVPCJ0!uh?9vg=a=8-Hv2xiG7+>J&lsJza(F>uS@ImPy
zKR50Y+5Y;|$LDgYkN}Z;?-4IIln(NBmE!%G{pWRQlMedaKa<jp-Nd1EkbV4kV_KG;
zPe}s@1L-I`Bxn?}zEK1YsU7ZkW&EnfZ=|0W0S*DudH;adfywKa9B^=u&XY5egXzBS
zjd^~gvK@Bpv%;WskoV=+<6?@pCXUuMFDxt+kLGywwV~^S{JfWrCotpS$&YKA?y4j5
zp>mfSQ98&!k4AI)pOz25dFX=qDWQ$bA3JCr<oUy|ONqTPCj6E+t9F0Y-{EWFDCa>s
zEzK0X>4U>*uk4zsJe?`eYoT<Io!vFW9%OHg?&n)=eQ4<<`V@=OLC$k9=*Kg*otY@3
ze{~x?Q-iDIR&>V;>EyqeEVIuVtOE`a(s>~Hs81=MLlHQ5NQVzMXW_Np-b(sGa=T0)
zSA&IgOgV45#vgvD0vvJ+TptB(VX0#}Pv;*6{H^x&6*eZKbdDjOS9t}Sa;&vJZ8DlL
zv^T3wVqyC*vg~Z_YvNb}*C}it@!U@FcYXW*fb$TxkC2-wOOjCS0?&isV5`$by=eO&
zuZvq#pWaC7|C!w9L`P^)5oq>7*%|r0OlNQ2=AVhNH;u#fclX}OCE!sy$oF5p!dlo`
z@0Ssh1&k(MdI_{Rln!#9J?dpm0lBS$Pc6n&WRv#T2%&V4*XdN+mB<~P(7o3mI}^4h
z-QUi9Lw7zSpI4V-%qcBMa@@cvgLGKbm8)yb%do)lfpjDvX;V+OayMHJT}->c9sU}J
z(m~#L_zz9mpJ^?Nzg)SYNd0BnSsbN<d~Uf{MR)ArxGhUl4lz2!oRbQJ(m{6SY&v!1
zxMla}w4+t(i{cZP8o#1DUdVZ(^%Xyw+|V^)4sVz}Vt4mS3Q7lg9zJmIE!R@$ZWI}x
zeaIwe^_hUuLGC5Ty{+K3r|};+URo#}<oRsr?v=$-lEes(7d51FIyud&f}VTj_;;K9
zrRO%@jm_vfBlkKLlxgDET0-0=ihg$8Zi|bBbk?ThhxXI$JqzA18>4iPedNseR`2``
zTLKOnq;qXg#ODeY2{+*MeL>d;IZtZ3W1^F#_fz1cKsu+WP38Y&uX_T=7}7bA!ND-M
z^y-ySn_e#W-o3xrARS^QSI@?2jwtYbN?#MYKFIUuwC7Df0|S;<C%Xkd>d0PGC!%y1
z5zh(3V*b>%wJ}a?J^3*QO`@mJ&VzhCv<%rO7zzGauB5({eC<y9#YU9#AdmZTT;?o$
z!lhRsoy}?dQ}n{&kj@P4U}+@B=h__kk50|jj}L31bdbMC67&_Deds;+qTJsS6PNPC
z$rz=Be4ndXx#MCGFlx@M++yCvlmA5zrGxCl>@+>_D(Ftj^4O(2^D%WeMwAZn^UUb>
zYTweUmsYMlt*dKbub{@GbdcwvrRjENYDVyRS|jST{wm8$LMR>N^ADHOo#<?@kkPD>
z!mnj^xJ_!54)S=J+>+O^`?!aSd^0-KvO89R4W)zp`%?ZKTX`y!Jc0$^>!Ce=kbPWp
z)I}XJMqRCaJU36}zP*n2cp;ti(2%f)d&-|F>~KGNnBg<s*9iBz;T>Ph#CY*-=f}FF
zU+r3B>_n6f^8K<+^kyAh4Nv%Cp>sM`6pPJh9pqj@JjBSK90#Ufwb>~unhzM*qnro%
zeL-2_o1?K$@k;L6BmD9QIy?v{9ppS&94`F!@-w>rGXW`gxcaBHP&&x#^pM%_@2$0R
znZ+{Qcx}6Hsnn28#&LPJ$5CJ7q+gT;$BHuUYy6DvxFetIqPCY(Sg(CmRH+Ru>hZo*
zo`TXrzK&H}$8@PEL})Ar7^UFM_Y}pVbdbNNoxjthozLq(NxR8lmZJ8J5)0X9@Bqv0
zhzoq8&uBT$oTW_VC!?GPdAyY0UbvdIPqIPuQH(z&Um7bB(rINP+PP(PiapKwP+_**
z@COg+%)J(sV*UI#Kb-TUEXP9B11zMoyud-cqwjHcZYZXtRzUm^`4hVH2ieEeU`*2V
zaF8hVUabV-;vse-r1Mlo9HYZy=L#G=q*Fr9KP7%b+9+*2t6#LB;S?6qVW_I#I(m3V
z1UTf6aD5nBx~2QqERumkgmjYBQdIwLOX&g!59#nTtn-COQPBVg3+ZqOmW{<rrx-XD
zJZ_W|dK^Li0N3Z7kZu99xvo2Kh>%Wxo$Q641gbRP;31v9cMUHnl0NkU2Mg(pQ$*)|
zH9fTg9C8C(pU4cVra66oD&P<y9kbXXe4Git6>#v7jwN0SFIuD$2plY=!<CKua8K$+
zCUD60aD9fSA5Uct408jA2<ZfJGH{AfXC(j!59$1Tmff|s#S;n~ETq#h5Px>DV2=uL
z$aQdiMrNuff7T>e1BVFd1PaCe;4`Io4;(zCV`Jg*UU6>T88}!-r;5L#zo&OeA2?(Z
zT%UG6cEv*v(=Gys2<b?S@c*3Hyfg$HJfxHL{lc6{NYZ2AU?H9Px#c}h7gM)@L#~DE
z^EdmmNbv7%Bj6Ar9S846jMU-g6TrbkI`KDezkgTr$__YKNayrBW{S*<m<)ZdtMA&P
ziJ{~gxIR?TUvq?ISk3{52<d#LIOpfk_P_@?cu2=w>66<6qZ2Q1u#gU?l<p<}7kT%A
zLw*m}#|I~0MRNVt4jdw+^LxQz|D>4O1>oQzorwL-pO)v-x`Bg*bj~K9rsr7N%m)s+
z8m>=6|FF;IP?<e&h>#AIzAyW9S-UE5@Q}{$uRNNspR4`=4i?fmIp{ddlsw1|9P&H3
zKJ&^>>Gpooe83?>I)ru2_3GaDCBVT$I)UjSzoW86%z=Z2bUuD)r*rsLjROw(EnFYU
zfJk3IY|~ZX5Fs5a!ib035Jv!T@Q{x09lnszM|ppMgN1ZB0#{z8h<5CrhvX`_J|q6P
zEAJnDu>$iDAsx-NKIydTJubk(Lpoz2)*TkHIp2VTg>)_lQ+*xJW2XTQxe~6Af{PK)
zsA*v)aEOpj|At;+MzH1+;NT&hdu!+SJ({u!1`Za|Df`5jolUx{0UYuhxITszxAuCc
zT2BCn2<eDec|0S$4zUCd9@3#FNz2LHRJ{otETkjV%X?<Z#48y%<kxV0h#NH(0{v9~
z-M=86w5qN#gAZEcU>-cAQ!%e`W?L=E8#q`<$ItK7FI-8UAaKa9;QGjnG;@x(g}4HT
z2<d2IF7Rry1XKYB59!GG1kjCaOs4|}3+bpm*8SdP{@4&W<O;YxV)jLoj5iba0*46c
z1TXftv^`C90uCP1Svtg&?Zx<g_jv;g>73fSWxc_Nj{@_MU&8ef)Mp#Y{&gu2I7CS2
zF*CD%v1GgoaPW{$U+-DHiQYrI?{~0}4yVP^EuXrKGhiNaIb5GQu5|VSGH*R_h>%X)
z@3OHk?!VK3gNJl3><s$%<+>{Z2Mg&$x@0<~4g^I4hx`JrPdA?`kK$<EL*Ni09b({>
z9$}@F*TBI;I^ydho;C)ZyZ2=*q_ckN_~5pd;_iK!Tn5+Ywxi6<k<gq{uon^1;kC|^
zuQ>Nn2{?F22g~c+If}dU-}MFQTv-=;N>Rj64(1`3!u5H3-^_gpt27TBBBXPI`6TJ2
zaK<~};2|BgP<Q{t-`8@0gN1YwiwcKl8PER)4!H!bPs6_LPYLo1v%n!jI<5A0w29;D
zLcqa8I(???ccWTM7J!3=bi^`L3}tkA3xPu}hU+7Iy<I*%T&52=L`Vn6$Y*36^+gIe
zcu2=Uh4t!ve~sPi0t@MAGO=BHhFRYO<{=ls^@-9Uae97BS_cjh(s?0Jr}a4Qp*nEz
zkd9!E1ASlht>eJKLOSXn4%VIhQNRiuav@xwy@|NQo8gBp1BVFdjH;N8f2;ZP88~=I
z=OBZ<b;#D9+rYs>It}rT5Bm=mzX1;UIb5GX9j;=DaDIK@5FwqS<RxZW4HkOf;2|Ap
zPbP1*e`jlfgN1Y?(=UFo&QOyE4*3~eAF+tKPpxJGhk!$bbpF_ReRLVTMg$HX(#e-N
zeC1en+#GPQkj@;FcMlKMJ|p0e3*h=R1w^T_a+Ch+1L?RLNQ)ZI#_)i7@Q{vyc3$61
zE1ffNu#nFAD@Gn$_qQT|L(YfmQ=8)27-3<n3>+e)<8$ke^AKL91vq#}hy2s}OHZv%
z1#qyC&NSZ*n-`JMCsyQZ?@0(cWRmmH^+EnFE@ppD|M*_gPv8_lIy6syAH2-_I0ZOv
zkdE-!Kr*Z4cR}FDLpnHNs+A|q1UlegAf0o@=bG+y)9VALF&D1$`1QS=<JiKxz=?%)
z78d5&Jg*G*1IHNB;rf=cQ{TJp1sp7-Q&@GC!?M9;0yr}{aD5)<wX;9DYFQ7QGDyeN
zT0XN%LhKE2d>|cb+jhNEE6!etSsJr>+_vjDln(Oub#*+qWCUuug@J>Cbk@(^k%~7a
zf0h<JsE`?X)r^#lt}}9;n2P<!gnq2>0fzwT1nT3bb6by%0tW}_NC;)JbNqUi3mgoj
z)A9GRMO)|1U%(+{!SxyXQ8Cy3{Wd3X2#}7eO!ccKpY%lF;2@pt?`il=ZBtL+U?80+
zT)c?-&&x`{A!Wk#>H9J0ti!yJ0~`XRb8#Z+A2S6G3mhDz!}B#exp<A@9B?p@j_8?R
zrnA<xQotb*;rbMvI3OTZeNrDd1V|@`Bc{iHV*WO8aFCAqdrHr6<%vMxU?81WW*Y4K
zjvpighm--==adfb2%W)82jCDO9lj)%#RI?C?*Rt~>6po8Z=`E!&jJSn>Cmtjg$MR`
zu>gmZ4%cTT*QUTgu5&+d2#}8K-x~>5a$^|a;2@nL>hi94<3e4)!9Y4Y3I@lt!ntk%
zhm;1_ht5WMO6lC`_rM`QIu+9#ozghL|N1~Wv7h~yr4z*B!8{m9XZ$m(;)MfmdVoVp
zh3oV7?i_Y`t&;&b1V|@N^?B=tp};HP;2<47)_?$QTFY$UU?3g4MQtN_%02eLAw7lb
zBb`6mW3Z=J6F3A&=UZ*{)?z!wf9DURBXgxw(9F`12h4+kbS4X@xy!p=(g26_1g_6l
z^AFW~B&?nThXCm?#qPZ}{r=N`&p(jPhJEMW$l29LU>*#lvp4cgl0OSJ2sot2aD8-H
zeuUxz(iDJ0fOPJr;R(S~??QlsgLH%<W7m^44t)g<2GS{7v@UlH)(-{_DFv=irfdMq
zRZ8dGc?gisb9KTA(Gcz3>m3K_XvjbP5@dNP8SI6DbmoIQPi?;cxd|LnGF+c+1JfRw
zB8^Po5FnkeO!^odD&^hR4IHF1`u4^`wT)gem<I#txZ#K%Qm@RWfkS!(*XQyqt?#?>
zoD0AqKsr|h-*A-4(@6pc2kB6#6<HeD1ndD02GX%o%h3FNIfx24q$IdL|4t~+*JL#8
zK5q~poflPumYnRHyVpAo((xH;y6{6lS_ABbfpk16{j*meUwsA~QX*WRGz(44c`MO8
z;1D34h^Wk%2M+6zz`;Q}&sNUuKXb>U1UMK-C!>q#r1A61f6s>raD6u4u5#Ho+tz`3
z2#`*rm#3->`_yUR;2@pu1RaJo<BH?J!9Y66?5wwDT}1kTLyCv%BRuo>Y}L8b(!e1=
zI!6rU>CA1HcaJ*`(xLcVKL72f<06;`1L=G;dM)In?7J5@q&T=fo>^zV$1^#|0fzwT
z-~`@mTTEZtecz3Pbj~)nf0Vz~ItAvzKstk?#)n78zMTXPDHg7eFPAk<ma4A+a0rl2
zFRe&d&x5Gl&!cdVj{3(AaUCDFLNE^o(m5=_xNypAMie-t7`Q%KTJH|p)@*12hXCo2
zhkjquuX6qG^#{_yUApm6OYN=~m<I#tg#NN-*ObdD1r8}1u8){h$St8Y?%nI10O{ne
z+;&(E82<0`Lr8~l;<~dLH{$`Y7Y5Q%DcLJ<<lOyg;E*1|_2H!pH0TQ3r~(cF(m6Th
zrDc8~X#_YpNGD1#6(h7lQ4bspq{H%1oSye)y#a7Y58(Rra|D?(F&R7t4gu2n<{R8G
zaa3XVISL2qJWf6&z4yY<PcRP#(uw*!$HbHHTLw6!D7ZdqCe8AzMH5$nLx6PBDeOaz
zy`9>9pMryQGMi(wKM<d#gLyEJj_Mb|r*Fkngn>hfgzIzmmC@omt*+hIF#@E+yXMJX
z|KjfM`yCvl!*52qpgeeH_jMiv>0Hw7eoL?6bZ56u1YDn^y+6*#Z5GG_hXCoMepR|F
zFKlNB92}(cUQe#j_;S_ma});Bsc_bJDwNcw1M`r=;rjR}m%N!yaCHI>0n+h2SlzR9
z<CZmWaFEVJ#ZmrTT52EQU?811@(0?d3N^LBA>D`T)1PDUmP7lT6>tcUj@HAMl7+K9
zXMlr)blfSpldcXdVu6E!bdHK#NPYb!|2l9;VQ_su7}ISOZP2g*hXCoQG(M>pI`?Mx
zeu{&1zM0o}d?j-3ehz?vbljg>49St+Uj%!R?!omLyINhzcZzrS^GpJyqxgKC*V5MM
zJeUUu>Ck*>FdOlt-2I#u1L@e?d(mmSg(!o0NTG0ju)+o`PlD`PfkS|Fq+PnsV^jkV
z0tW}_&=UFFwWeO)1P%t$VSfEg;rMfBJ>Zb;!u6RPeH~*WD*qNZ1W3ohex{f;+hg}S
z#X&l6EWf<C_U}|Lm<I#t>>H1=#Ba1D0EZL;*GE=ARld^gNjPu_kWM7CMeJoQy509F
zI7o-hQr?_KM1S{wfq``R!Xxe!p9uE{dy#_S`V?hw1#ZvSegqBy(#dRQuvfH6*}d=J
zAe~rgQ8xkIRC+KE2GS9cdi&(qqvyK7AravEVAllJ%mtHnpT`K0&b}!%gLnGdeqbIP
zq;vPXQBrH>p8sBdAf33=&L)m#5gcG1QV?99pG}iGkN#-z0fzwTv~|!th~0W!0UR8p
zli%$0>$vy8?)?-4>Ad7zxYeq?zWcmE3WV!3=4-otT06WO>_vcd*7*F!xhJVCfrEo|
z;+U^^3}mwI{vHwo>Ez8=DOgC_E`fPS0dRdL=GYpR_<wr>hXCnxTrO9^J)F%44i3_}
z96nV+tZ{h)91NuM=+iwOE1vNf;E?XX^>JR|!2G?~9R?f%q%$UK`=F~Ub@zUOgLGWh
zZ+uGH6SDi9fPr+(!cM)8DtoC0_9FSi^`V)$bgGGuY8yBNNT*Wln7r-2fV;rKK{~Z5
zFLUFUR(HRT!$3OEs&W?AC<k^wha~yI_4)XtG&1b5r3=`L0O?piy2B7kJ?jA+9HhhY
ztnJWv6Zr>lFp$o<g{{<ow^#oFhvW;_M?8?d)M=l~4sZyNPSCPixwC-%?(Z0JkWR|G
z)h}942DrdH7)a;fbz@fj?|28`kbL0!T(}o{l&z%23^)Wx=h*-L;5yI6i2v?ikj|u%
z4x_7d0xOsY1L??VY7u_^UEX~?BzeR2$=$f2u-b5o1m+<?I;X!*;|E<LegOvu=~Q^<
z=_Wj7*nQ5#KsuYJaNKLD<1Jtwk{4W`%F>lHN2}HUd;NiQULS8xr&Frg{az0T=`@vS
zeJMCNbPMc-fpk`fmG%;%$-AG|k#58FF?P#u>Mj5G-=DvLbkYRhE@oLrtAo98kWTp(
zp2|4Iv>D)FARW3sW^MmA0b}5hJmLDdZOdhqRi^DeClDZ=b2imF9cMXrf0u%Tble`L
z=!&Y*MS#69kdCnNEt+O(5l!HbJmC7o4?4JNncn^H`hs+1tQ+Rn=zsn9{UD@+@zt=v
zN15yadto3QU$5q{J3j)S0*7=9u8)dPHot_=@BhvpNQd`Q$-Rzw<NrSYfpl<bQL(?r
zPw#&2hk<l3WDV~L>7m!Veca*t@Er8;q~Oll{oI%U=~Nk?R{OywMhWJ@K{_{QeuX=o
zJ2Vd*45Z_Jq?oOra84FDBsaJ|6cpZ7rOLiKz#%|7wHMfJI?SX5fP;f{8hqK7Md#$$
zfrEi`o_x=#^a(N(lRxxX@qC5C8ImhppV;6xPtFE-TmlXO(h*(#6?RQ5M+Z1KNT>fw
zPWa3l_Br5SAf3(jb~^%l9y@SIE^vL)>1>0xokv`NLx6Q||9nw=T(1l`I7sK%;ZehD
zEy~-#!9Y41Y1<Em86`dfhvW>`XC|F!rWTO9>kuHFAmRW0#6gy37|er%bedG3wSLq&
zSq&Tvq?0$??xHxNJO&)nO}IWuM_98P+(j_JAwW7bQe7PfbdK#hI7sKpq4Z!`eOXB`
z4+hdvk9hqmE}qI5I3y>yJ{QbHM(#53dI5(3>0E0V$;eJF{0AHyr1MphuIiz|Xbf;L
zkj@^ND{aDwF$TaPIl}dMV<yWg=U$}@90H`H7?r3U=It)p^QD5+?V)xa2k9Kzsk{GZ
z!>t%N7)WQ&X2JQA75!D<kR0IpG~RexGTC}|cOC+y6S#wA;p?3m2lL<{osBDw3?UrJ
zyYpZmoiMh9!}(6wy<i@aJzO7c-sPo%cJ4F4AwW7!o!lov>qCWsgM)Nz&Gh=(zpC^C
z2LtI0Ij!Ek`f>6ha7cD=eWV3CJ}IaOIs=CQ>Bzm`65~y8w%h0I*z|`q)`5d`WS&+u
zvfaCT1UMK-C&bpIYcyv3ZXj>mUdEXiX_76vKFEL1PCxe|ORwH{y7H%gbsBxIhQy+D
zkblofa(9A)8>5G1P(q_xpO@8w9;7qa<^66FPncrtlNd~-7EWP=boN&B=~`T;Dq!b+
zvHZ>CE56MJT_5CL&2p~MoM#=`{QSBXGnw<5V<DaUYZGq2@I?Yb#lpq~Tr}x=kWTd5
zSKl|pIYqw+Ij-9LqX}k2=^+0es`yIjQY)hv6>52IZJm=+%6-;web~i5d`P$=_)5Ki
z&scYSGCBpNgPi9eHUE_2+u%@#gQtz3`ssbcqjZqRYeLFLSu(WS^K_*^GDEl0AuLJ<
zIS($;ij96D@WpiFUOtxbmkTpiaDA#oEV1@HC-2Sggqhe-s?irfI{(Vl^Ip^(%*|-M
zVQh0(dE6e-2^psRRDQ3mVXxY<d~DZgZXuKo@^z!Fx6N*^-K^hQL1U_iaaH`fC0w5e
zrpNW<#sd`N%f7t#eM>l13F%yowVb(LwPL|_W#gaaKlvv<kWQ6KU+qF@)@S0s*;tBH
zC2x6@4)WjOeey1S%){%?B7rfzr(O8sG#g3>*||ihQbMkw`EJ+U$YnRvQO%hf=sF`E
zYucVx=B$Q(@b7n5qI8hg*M~;sTfZ}1G=Sp+=``~nreLwz%b-}jsGTU|cU&H&gWRh(
zBk-wFVz*=H@^C_I%5PI@ln(OWJC-dKd@w;|4W4i(E8xreMc7a}T!?=MeAF)UUg{6u
zyx!=6Je`TvpfZ#WFTz>;O`Z62(d~B{RyADWFU1h-`79w?aB<&cA9-ha-@~m$F9PiO
z+?cLY;9f4i1)ew1p3lhhN6~MoXZ%Bjrc{aWzaV{u={}TwkWTQ<(Ld)#=SL>(UjHaR
ztlg3V=^R+uJj&4Amz|xGU6Z*$)nW|m#N4c{JE;_!pmgD^R<g-AwC4|UubjS-XWE=!
ze86*5A0FNHj&y!ydwT1){YxylEKV@F<2scB>Fnpp{n@vajotajGR}SIj;JxD)0=+a
zuF{DEoHLmxHvhyK<g=l4kk@<eA!ga*J%f%z_jQzyzb`m9a~-Zv(86nJx(8fCmEAm!
zI;vFt1(43$?~19pmz!THj_K;f9-#kZ59z!VFQX3<6{rvY+r)3+nmQr`>A0$<%6t3t
z9*P`Dpk<n?pO~>g*M|!6`Xjv=OLb*aTkKRfPVXoEh#3i`gFIe)zC7uj+%7-wwUTXR
zzqvgWi_$?pk2y{h5SVIoGr{w-F-iw{U5IPDyS_Wfw!)t|<M;yOSk4CNltyqJrX^b)
zu8hkR=)2Rz({~MBXXHHDA97Y^g(W{wD~trh9qg7)fpmmD!mZ{fX7~7&5KXtEwk{i^
zbda6@{=WT5xtCSHw}RO=Fa9Yz7Nvtce-6I6KUW_-!wZ~sb98->&Wl;e!>2+YDvK9$
z^64@+QnjIUkbAYRvs(r|xbR+sZhk&{<G_^^ln(NEo!%N}-NrdT7t~69`fT-Nx-q2V
z)ECxem9nS<95zVj*m>JF)nUaw!09tX*BQB2duH+Io~?Vmz)690;<=TMAMlqiUJX6A
zDtPH+gE6Gjdx);&JKf1b;IKhDW|BA6EM$d5fYWCR*JnIB;kgcrQ4(-cAf4)X>V*sY
zSv-Ja4C%;*%SX4pxU)MC8>F+gvHjFZxnv&9(`N$LNA#E!6-(PSCE%n$I){wa)O#3>
zCV*oM>5#egoBL1Qp8^gWq|+xOZ{n?I{|7jI#&CTYwxtAX{ELc!lLG0?os>||xTjJL
z9Ail5?ERwJL#ZEk=V60%90u0=o?Sm|2IlEAg6kvhT1p?eaeW;)DUc4K0o&AhIMy0C
z#*ohDaJa`HMPC7M*dU!1PI}MOA8Xfu(`N|RhmmYyn3U^Z1Dq5{=RL=nLz9HrP2d<q
zIusp)_0OYJG=akg={&!Cicd9ZS`9dTSK<1+Kf}#AU=XGOoD@jMUTWr={<XqR;21+X
zQECg3W6^xO4jZI1wzll_<|VZ-n5XXwTpu<yW*5e&jz!?4Ksr+UL+1y|j>G}S7}7DM
zzf^UmkRcN|Y>>{MaZH+?$%+?n`YyxunfqlV;bow*A2=zHjx)toeXb+#IDumf>9AmN
zmu4k&zX690(s9Z=9Q7eArxrMU25^1CJ|8AXbZ%JyCk4_esrRvZL^xUk9AikQd8_Z`
zj{EB%;IKhDKMq_7mkCqcz3=qt!}WQk_D;<8c$P1iCk4{Erf_dN1FQB5IL44pcyQHe
zFA<ti;IKhDw>tM99{bIo0GvKOxIT|`WCOG^j(i7B3ZxU<A}R90GJp5D8$&uGAC7CV
zG2Fi0@TUBX^xOR{Y$zS%`%1IL=<&bj1`h&<d<k72q;oSyY#+m?1FymR(*l$Z@_n4p
zWq#*~qnCJqV-M-v3d?OuYWd|M*=J)oIeYw>5TwHxq;m8J#Ss=CnfL(RT1ko-U37hr
zdj%SACZ+cMNwNKQ(d^IG=kEoOPSg#8{Djj=*vaOH<!5kA>GqJ$q*f4xiE7wY;0QrF
za#UYv+xx2b0%t}CuFv=V-kr9y_}@XijBk~-Xl@jsbdaCdHA&6uPQR6Nf3G)xGfTzm
zybnqTdAzu3E;Cv2e!3gd?9K3j^DRjp(urzV#V`7~YYK<b=iSr@99X{y*9X5JtJRKS
zS!0i;IbEG~yRQ<`dFU9Bd5CE~;@n|QLBaRyO+F|cWaqh^Z37O|_QywgbZ^~JrR>x~
z=^#5VoEUI=e;DKWg`)4HfJIm%HKZe+tMX~_d8pT<!xm*SUgBiq1$3Q}pVu9(t_&RZ
zVLmeQi!Hx3hn_@4=^*z~A|5F(`5R}4i*w#tzggdfN9iEHhy8wAWrW*6)5;q+>7133
zQh`J1&>%h!zj=<mpLn2pi9A9d*-I7Gs)f=)?lpZxM~bYv{!jL2UO<{}$tE?VV`Gr&
z-EC}*vunqC2EB>&Zak0fcp>L`6(?hUxu2!}ZT8%>6MgHGaFh=6{+05ooDV0F6`jki
z;NPZIbV?7UgY4|$%}Lc4zU|pCJy1F!CP_3#>Fh%suQwqduTL8!vWT8Djcm1v6~Uo&
z4j`Pl>BOt7<u5ktn5cy#W{s0!ol67y+jRHRS{e<H?DX#2H;2|ip3jxb2DgsLZ>`a8
z`0bRNFOOhR?!|%FYmm0abgSUAZVh&*WwCayvH+!nd>wNqG_0hb-gsGXA)EE1QcIE#
zN(Xt|6SecX6jTIc8~IQ6TE{Lf6Hq$Hc^n?{aBmpLB!lM`wCCXoM4yj~V;i*9jx|>(
z@Ug#V56J1EyiN}z9H&1IM;2)A@b1lcbe)&*EH(wDa|GdN*j$Z28?7!0o}<=LI>^`O
z33A%D>WzKlzYo6ViLYI=ZbRuXAm%ALIdHIwe(O@!B-Lw)Y4aEi%KHxTcyV|&y{cc2
zj-bW|dBqvs$wfO4^7Y5xmO;yv{mR6ex72;Z>R5ZUosri&yEOabp5BTWX6u+veN4V0
zTIVRDkFl!6$OF@?7Jt9o0{%UJt>jVmp+h*o?`RcAOH*T<9-Vk9B_NP&jM72wHE>!l
z^kykGc5aW!;A~fLCt3%2ow}K2MVh~}2$wWEgj4uHvd5#GhaR!l_Gf;PC~0%!#kaGj
z!zXL?!cjWN^XI$Y<>v|mQg{k}<C2lnl;_ayg}h&QRG3QgaelhQN7?kyf%&u#4&^+m
zh`pTjjF~r{jZ}i)N5MYNufKlr*Y$GJ7xsbZpC{9uTF^evBk%7IH~U2g!#)()zHn-*
zean$-5BVHE5q(`{>CU!<eB-vXkb{W55Tvv7{H*Wds_m4xVpa1KOp@6Q%Ff8Wc5Y5@
zUrBz@@R@bm*?H;2SOKK-LhBB**G}$}@1|v5rSG)s>>-^m4mj1Wdv*`!lczgf*SST7
zARXazPs&O|-BhMEeGjs%{YjZY`TC6P)2yP-HsDof(T5ke>m$cpE`W5HJezBo_NcYf
z9TAJqe()^D9?}WbYHE=>+8<xfHM2K2(`!ix(urv@2$j(-r+8d59O3z!Iba6ma{}^y
zaWLZn=d{bp6YxH+45fqYT$s|a!rCh9Rd~;TJ}Vg$>;~zSowRZcKB<xf9C1jex^q~V
zKK`*NaF(>;-WRw9t5e*o6?6nn8KfiZBehRixiK3!ZjesL1a-e-NYW&5#37wM#Eq-V
z1s{rmv!n&rN0dTDp@F`RA2?-@jtAZE(TQYLb>O%`Iz1T{vyxLrw}2xK={Q^JTD4Gj
zs{&`~99$o7zxJLwMFlqCltDW7Mu#i>ML8pY;|A$e_#Ee>KIFp%9C1j8(@m0P{1aIO
zI7^yveKwQh4dW{%PXVV4(z$6ycZ@2BP7ye6kd9PAq)K^iOA&CyA)QNOwrOUc7k4`^
zX~6aQ&BnozpnRkk%u@#G4A1Wzw>>vE4jeZ~=XjXRxXQ}D-Pc2LNQalR=@w4N&JWD9
zbQZ2pTk!~w=Oh0fOPi=Qli+&pGDycf_`SiEzq4b&af5VBSLM@+7Tj}yBM#{}XZyEx
zAHSXooTW2xeW*HhDFc-!T!B*t>7;R8?iCww>;{e-q!af5o0np~&m1`7kj^2kKu?~e
z%m0A0qz>1oQ`N?@hOlA?oH9sfkoDlTEUz=3F84FrreqG?bc1w=+Z8H*w7N2ZBM#~O
z!sIMDO07r&XGsmNPrKJjtlzOYBjA)lI-jCEoWFOy{skO2Navx^-MrIU6g$8Xhjb3B
zoOHjDrgIoLOE|bb8a$dOCpjd8fl~(Q44(UVqBKEK6F6>=j-K${VP6lI>%b9*bY^b3
zTu2obmjTYwX}CUvUU*xp<)BdDltDU+TsnHXCV>XPaf5WK7N_1N`dj@5jyR;_=FRSS
z-lSn2I7_N<eKNl_RF^*|H36p#(n$&4tDS7xX}!rx&lszrBJBq0^o1zrx<C743LJ4r
zC$cn<WqlmC9-!MXb@HCa>XHgvpSP7G`0Ek_U->Np&ORz2FqT0&Jj0Vu{PvY6kjIbD
zZ5iu*bc1wQ=Z`oa^nLOE!S(aL)G`));*gF{M;cAro;&I1dl&aPYS>pUDZ};AXOBx|
zVxhJBP!$xDtn6^C4ANmMRR1_xr7E>rLRLBKsGsTv>BJw&yWZo=UoCL`Dp#G?uN-km
z=dNoAuMtMQKb-I=|IZPsiX|nuJ}a4vWCd1wrL>T&IJ#10)-p(Euc5dC;UZn~UFBiZ
ztO~bbH%O;or~KomxrxNQ)!%fla4A>BAsuy^FBOcu*?I9Vyqw95mCu$G;rejy<509_
z+835+YnZVhe<Z&Q(y1=FO$b?e9&{(%wn#HGfZ&GGL4L1yv&&z@I6q}}Hs4<Ffzi(>
zJ(Lde^C-T<9)F*H;vz%{cG~FOPVZ-gbVSZ?ezrcj_)z$LETj2IAzhmST<62l-Y@v{
zqDH*Ctc}MbO|Ha3Iye1T?D!7s=PUU5i!+JCHcSuF`99aX@hHza-+J7cf5!UdBqO9_
z@}=uTf_{yhKE8gZXlTx&O&+e#7pXFjvUp<;;KV{YjD-rn&d_uH1&$u1Lo+q=rrPE?
z-fJkjNbg<BQ$|SV`5&CklUlL0@Ta;7kCK&E+vMQ-82Y;3ctT?LpuS(HvsY7cI2O{0
zmH3+Uw$)o|)3KPbIf+$952b_ro@heOs)0XC#KphW-FVhWY*8MigS<}3uV%Lr5+6y9
z_X`v=aX4IFmqphHIgihwl-{+6XH4(kUA&kZce;a&(m~FX&aL>^wY5J{Bcc~0)A#T!
z5z=w;reuEZ=HolU$<pP*+NFwzbbN1CZ4)1z(8Ct9)-p859mYaBH_s^*c<@LMG#gJ_
z6MSu=$uj6VBl}d@n|>>o+kOnb*CRqYFB<TB<uW;WfrE#144hazx_f1{frEu~KK0(g
zn4e}I2M$>pu21ORmqh}KG`YYbLON9M45<4u<(N08ojq_Zw!iR@&V&3%j@zbMsxRN~
zXXejh?Zl#Vklzzo8%l`?@!uzo^g44V{BV0TBL&yT<b27(&YRAkxg4>*GnTn+1(1%$
z-wvwSM2))A#(LVr=c{||Q98)I{=WQv<#@#NzmZ0%3|9%R%Hk*;<aNP$A^J%B8Q#LR
zhzp!@-J8Bkl5l+lc&-(N_Ffy@v^E?vN~9)~K{`Y4Zv;#_Oq~6+b-r(-Sv<)NrGxCV
zu&5(HZqcBaT)%}o?cY!;kJ3T*vGjb$eIq?9D<bFN;^@QH<#h?TKJo9fuNp|_&ii?#
z*S>hR#a{{O94@;W?Qn##SLEP>O!K$hiasbEWS@i836J*{nRf2+{)b_)zE_Jw=^*>u
z5|~^4UhhA8Mv=tDNcHm@2GWU-Kb9EO{bgYP&*@8CDk2pmak$RRY<%Ow)IUcr&Ne8Q
ze>p}bpmdOZ&USb|Sbv(V?^&<%viNTLj221<*~h~7^|S3;zf}7B9Gt6ytr@8yowoiJ
z!f)FA8TXe(l}YjEI~v8%^+E2n@RfVtzu_B;-Gi^qAKdvu8H>_E?uEBXeSKrcF#}KC
za5&66)<X}{d4dTQveMluc@S<Up+av#WQ26gGhVK+-F(QVphEZfSIZzr+bOs{0{dx<
zs<p*#c%)=csVPxPr=WC@eXKf;J}i+t=$0YNa7T&Ooz)o9an?)>x>Vu36>zTFK`!8v
z2pgnBOKpBBlg1&tA<uI(>5S8}zLRi$S_9&S8uP6Ask%c=SkIMwAfj}Tea_o)V&BT{
zYs!nzejq*G#EOS>_$RJj5PpPd0Po+ikj}nA^Hm-E#Fj6Uz|VZfj6||1x<1Igc63^H
zJh~pcc&X@$+e)a25>YzH>(t~~c`pO4pZ}Z0aQ>0Rs1AFS4sss%^Na)Tv+w$?T5Yc_
z4OCVNK{^hd3b#$VraOj5(+&6P)XC0>!1XD=-@z<ZV#^>ke(C`8jqfT2C>>;<iD1X5
z7n{rbTbg?Vn5ujk-B3EnK0SEeijI)G$@kyR9U+k#hr}VBce?uGelkgJdr$T-#ZOjG
zEeWIRgWOA)HmuE}Y@T42(oiG1`Hi;{rGwmS;?w;zMT;AfEUFa8#7vlNeNZ~cc`jc+
z>a6t1R{N~llP14JQUDI6gPez950z9vE#E!G{dvW9Y}QXOkj^ESA5RnHKRUEe6p`DE
z2PjA<&~--s?$kguVlz6d^G{sH1b&VFIb$qJ2f3G~%jvGYo#D)3U4PCJZs6qfAf3+{
zr!P&&B~j}BQXQr@==#hE=`hwPhxfK@rR-M?p9|hR@6{%Rt`G9Ke-bR3{5hs?TbOL}
z{e$e@s1%eAvd`P1xJuHumDIqiGIqz`@eLS5I;oU>5~1>;*WR7jxgMxl^OX&ygWQY1
z)$6X7+C!^g>vMHq9@HHr3!>|T-0RfiIDzdAvrDX&Y3a1-cjbtX4sV;R`=ih6>q9zU
zD=t3wcf&(EALC`iLY1QQf0bs>C}JFzu_zs6pG)Jzrt-rQZatidJAU3NF*5>ieVT)=
z4oC)W^apNV=x-T5S6%?=7@ul9_u$Z<-(2}NcD=7Z*VsckA?Nv>e7f>!deV|P5=|8*
zg&-aG^^qK-KDnT8=Re4nGn@UIIS$unz{m0mTW*yuTlF_RqbH1N1t=Zl@wz9Zxj3nQ
zo9=?KE9<?J^CoU69pw3(Ch-0KS&2pEK$oCE0iO?c;*icY*`drsRGo=u{=F^9_Bpk&
z#E-5Ia<4a(G%qznWCt0GO3yw%-^Wpj(n0QJ`nQQ<+dR38)41kd&Pe5~52W+0?k5dv
zRaZ{qE77Xz^~yPUln!#Q$$f7^BKAmx9+6a>QI}xa#-MbNdzol%HYprE6LG(vmGf^y
zrag%dU1y|2IQ6MKWamI=kpAK{6T$5?0n!=N`+D#9YeNgA^@Ke){|@fQp>&Xa9N%YZ
z@E&i@xU+9IN$+<Nh8m@V+>5(&*;|Gtf^OPxT{rfz(B(#6xIT+CFWL?_wR=kPoRc`p
z8KM!6(n0Q}z+Dzl7W^tTX<?7+YR6+mJ(Lb|uSbTOu6O@6-g9F=GQYjUy2yyqLC*7U
zC$5OMGERl1GGp-Mv6861V{m;k?w&n(p~hgE#dLi*73*f60_l)VufHqtSduScrz$BJ
z!zUV}bdY;_t#C8a<HjhI4d=Tm^UhqsqI8g*bxfly(_0(8S;;*@f>PmE$XK{OCsliw
zrtDwJTYY_Q$r_xqp9ty1?rpg~_>4RK7p)ApmxBlikJ3T*;Ta#N?zAd?&A81K7yPr_
zPY9)h?DOJFu%&AUH&@%n(Gz9eD!*rV;QACg$EPjp^>|gS_M}wE_H-1WbdY-ysT&2f
zV(VEJ5~ux^xddC>P&&xH{`V7nk7uI+9k|q6D#6G9d=Q6p%x;${7i@3J*#A&tyCEy*
zyu=OH=N@M-=|%qJiTj>@Ym%!4DP<@fWFNK`fy`4MxUSDot;!Bz+A@4lI><gTMrt!3
zb9h3;1p|cnRUbT%hjf^k!fbU{4}J=c-z+Pg%?VyV3fHGQ@~ebs`$>x*>cvgJMW}yN
zqI8gbUb@cg(>truuSVa=W>3q0gMiXO_GuasI6dQ}6eGq;lz#jqdKm}lSSrsE9?*#=
zP3+qU{XF%j5CiGdyq8s|IC1+!?Q?3g1N(DbNnCK9xjt5$mDN^H<uf@l>HqY683Cn(
z?Cee{a&<B|LXf)o-PF*>>%&?o9b{+fjH|!m;$4@WD%7v9^V(8SLpsNlSN(U6^LE{5
zScu%Hv(awkgzNLcIK(>F_r;-t&IiAT^;>wtQ98&zxqEL@=ydb#eMGyJdV=`%xE@Le
z*=I5Op>lYF_s4+ruHL~DeM5|pPW!9Z#<!*qDdX6G*~g}=hP83P^-&D1m{q8Goe@8k
zF=g~JFgg~}(G3s!@}Pk3O3CIccm4<UE_x^(WM>UFRrT->oQlsR_Uun_`}>>?rGxCO
zd#p~$^uC&ltL9H%;mbGg^s&SBF=oHJymj;T+v1};-B}W)S5qLJ&CkVS+4DhS28X7P
z{aRfzHHLI1{*>NU`ZKCoVBhD7XJWTuL+Kzp8&)wjOz$~iIICS~7~$&HL}r8QGbz+<
zUXok!h{r#<i8S`Op9txYn)pQPW5PY~AO3y%T`a(ehjdg0<UVVLE%;h+x8FAkd>@R3
zboRBseEZO%C9ct6HRZO8+#s11uFqp<r>7e1dWpviTKRfI)})9i9pv#69Q0n3^q=aw
zO_dp_rT-_#9;Ji4E>fPqA|wVLj9#SP)KGEZ^Amz}#-DI6ec#b2CPcp(Q+i&sJ;MUm
z=g)qbrJ^s%#Vp&-a<Ol}JSu>6euy^uGbc#K9Gxlj5aXQmwuf}+y~uh@1d32K+Q#Ko
zF7<0dC>`YS8q*6o=qy~c))6nBD(%r+ymSPvk14<Q@0%C0?~iUL-FTMtK&%YXNj@4-
zqBn5Eu-Mj-Jw>eLf*YhGVn@Q%)9n+wpFGY^OtuOaN9iE@P}JV(pnN(lwMjoC#8!TI
zcAXin&tGZH9Dng2Nhi<gc;8l$E3AZczSJ9KL`@6vg!s$airjO*>I3O)M>btu3oenR
zQ|8VuHPjN9hjiqrc+Ph}7QYjne__1wQ`pCKCUkv}oo{Z~N-<~N_<85~PRbce{X-;_
z4)S#)v@CPDM}uQ~{;~|k7x9)20;IE@N0)Iuptjmr=s4H=8$o3_ln!z)XA0>b^J!tE
zZoj(Cm!i>+sZlz}y&C3glyYvooB8UUV{kaGM5OUBy3R=F*0(~7Zi9<O{kg|j&*BGE
z!XceMS7WlN1GT5=&KsCLDo^>Uh0;Ox39PlFu8yxM3vduj4+=Ww!-&#B?lq2S+srTB
z+txDngnjO}=J~cmaDARf{8)GqS~NB+_xWXIgGX;Hq+|S9g{PFzXr0wVamB}Bh*}TQ
zvA>x(N~xRP{UTEDj3DQ0A4Zf8vU6gZz+2}~A=M|{q7lpbeu{mJaD6;l49}g!+){7M
zJakb=IfXt2(s9YEiErCauPoFP;aH<IZek4SgcaJaEdF+zu6el<uFiGNi4CQL?DJkO
zkIyo4Ro$N^I6eDB!#gqqT%S>&SDCUNk2oj`Q(s(-^p+t)I(`i!=PGI2jeGJg>ss7f
zQ^%upkb5<sarOHfAoTj>!*3Fb;xD*`P&&x#i%{rdv&Tz-Lt11fVAj>!ZiXJNPh7jf
zLmGa!;#glboyp&8iUlYg<X%so?67oJ+*iLJzxI47`O}sgN(Z^u=ClRg&^}=-YEA72
z&uVU&IHY4k8+xFm)-;5zhG&1Hx;Xz59lAcqy=o@czADk437N|l5r6!BeW((pgWRhy
z-0xN4{k;3nnd|fab~rrufpi>m+VuNqKgN&Q-Py}6bJ<rO(%I~dT!{>=GN4t>`jv3S
zLUjEgx<1IgsIJxhEjNue8NYn}!h%c2ze<!2vh%OK^ko@^H?o!H6a-b<EZPVt9ppUO
z+g8_HS6GfGZHH~W&lY#VK{{eR2YWs{$|!JW7d_T2k{-c8I`_27X1Ywo8M=}=uT1Tc
zP$SX8b$;g>hV%UUtVq^lpea**f<S<Dq|*5ERI^+9Y<VP4ZP|Ew;!rxs;}s)perW4z
z*3?_!1RkHN<xXmp4)S;<L{IhqS=Nf-IQJ408#v<HNCVfWZ}}nXy1i+xguAJ0Z}ScN
zaFh;muYVr2mTyK>WA1Tc6WFh{H0q&rkb7PFP&lx+G=|!_*dvfvF#aYZq;ptIrH5kM
z>bccoz1!Txz(m^txITI5nYS-Ju~eifIqEpSDZv+u(n0oF4*&4swIN@Ee0KNi`8my3
z#wZ<RpV7yjA<=Qy?w#A>YxZ%8Jj905LC#~doiBGdVb5KgaQ(>dBa}EYHC!KtN7df!
z!aAl5<ZDFP<5{#sNC%(n$1vN14{D$Jdi|O44JkaNgQd?B&v;(-^<=3-oy@-Lv{;l5
zvd^LFp)!j0yAscSdWsftn&r*xhwH<t_v>`)#aq*6W9Eet@iBA-kj}c)OY0lLjJ!$x
z0ktp32toEJ9pqjzLR?<0qpa8v|HTmXfA-JBQ98);P<jy;8N|}wec!3@I<{e2Z)qP~
zpO-~*N~ZYIo?M1cvoBw&{VhZ3AotQG9_G+|pF@h`OEZjh{p03?(n0Q}*!pFNz5U41
z)HxM#$FAH_c}OQ;Q&`ca(|_liM+4&?oDpVyFS<U+y?!mtS1g_g!mSz(hjD)V8%#p!
zAoudR%yA%WIAI6-?8$oy6UImaq+`lfI6^gXMcKkg#^4RM=noF1gWOAlKae3U=H;)D
zz%Lvt*IB2iQ98)IPR#!?TB|cmsn}^YXt(04YotQg8R^XCg~-b{eQjWs91k$zTXqab
z=^*#I_*k#JHEyzrHLp6GJU1|@htfgLqm`j~?TGG!yUu^Ilm#hNmKh-(n;~~X_ou7&
z75aCmJogYB+V-I9gWL-fyz*Hl$L*S!$*0ucwZS|oC>`Wp*Szy@V+*Uae&xshpyD;2
zFotxv(%A~^P8SI4jr<HZeAc1BhSEXq#Uq)2=4Mo7Pt>Qj6^0k@mB^In`XKju_$;pG
zRTw6yQBD$*MRV>U5z<M2%5coO>LRsY$?V;Qu$M)6NQbYDt5$_vwLa5If45`*kzOoH
z2iZq7@7k>)t(R@Aw$+=d$zuaE6mWga%<OBY*t6MverOzNE?u)KfOP1;f2XiIM=E{Y
zy~r|b-M(Uv(n0PO^Uu%Fgh~6ukdkVnUS#N3ag+}7xF0FM*0@orVYjlwA^10+@7@vy
zu8*3Lk2}SjA8*kJw*Mc)=x`ZI2f0_u8yoSPp~5oWbb?c<NuAn0C>`WpB4ufRFPh!H
zXv1>EVLk)nFAwR2v+E4+*}u5DKhiq)$*TiK>pOpU{@;Iyzi#^f`(NZdOcW{q`&-_4
zhM1*`jwUeID^x-{Kb1$H2($1#U6ee*Qhc#i!3WamxcYf@_|*{0=XxpgDgE3id6W+F
zc-<bLEV1xjWZu88^s<G8b{+<$gY08(d?`8AGo>piSHd7MkhY(+4cB=!#Y%o7N5JNT
zy7;&0l$4(YNQY$2$It&h!;$jbn~gG^S3hwm9b}&`BxBR*V$Your-?<P$_n+=C>>;<
zm@_*Yt49M9X%(*w&EFPmY5WJ*hfbDyLsP~@tT{QT`~y>hNI0ZZDn;!y?f9#N?(#iz
z*Oy|fT9A&>pmo@Q<v6A1JGMhIr;jvIqjZp+Kba?VvBV{sJM()?2|N0%v~9ulsV}}2
zQ+vbt`$t{Xg874_o>)ldP(BZ3&-TjB0+qtLW45WM9!dwfSK%Dny>~$&XT82l{}WLy
z|Hp>XL7qRy?1qGCC=I8&t{4tH*e1Q|`wQ3Sw}(=S_O~OhM;Y3<ZhYaeOF`)%_tH_{
z|ME!qd-{Xq7f!YF#2a{&4sx$*$^i4HPhQ`#rJTldmvif4A)QOxCocW=pK`!To^~xV
ze)EC6iLMWFuiJ(EvqQT5nybYeT!!vhqyNX=nFnIIwfkQrb5t@FAyX7GlPOaanMx8e
zM5ZJ%r6M6wrZPo_s1PD0DJ4=eWC)QmM3O0U()8<`^IZFP&U)YHxVv|Izk9#u`RjVF
zwXXG9*ZQt?uX{{c7&+*;B>l=I+;bWd0|hxl%?%qf9B^`M%Z>c@`1chzdGv2rd3an@
z2qOm_*ZXjxNA2Sbai)5gj4V!Fiy8lfO&@ez!&4qhn(p}eHwPy_$zG$ZRDhE+r9pL-
z&W3GW!&H#vX#PGLH;f!~Tr$SJRMRe$Va)bIG=A?BB;_!2&~XW;Qt^lCOYI+?-&a2N
zZQf;W4xc_d@~?R9U9~QGh=1a?ipJ@>5{w*lTsIUWIK5vSo6|qH)GXs`|AzpK9CTcX
z2d$=$zMM<6SeqJN5;LK#ij%`y#T+;Ds$JP$t*2ohv-3JKoE$SJhU?F*AJM*BH+$|>
zzHemtM{GKy`nX81Z<eCDH*j~c_r`dJudhNea!`GqvDi5l-Hd*#Qlj`>rNLcY8z(1<
zDYVtlElb!pR83Yyo@|&JBL^LqmgMApX3OxVD@#s!X52~fYMjNU4>~T<=-WHgOoy&l
z1)fm6N$oWfg_F}R5=3Q^9e!eWzwQan*G>-&Fmljw(S;t8$yC3xtKr3-QayuR-E0^+
z=(sM|nhuhcaWt%oZ9Yk(G|SUIgHNBKqG+Bo^6KXVEgl$lRd{Skz{o+zb@t_}C1MYh
z4!-lRe?2Ns`NRq%2OU?!R!iFLOUySm+h<1Bea?^N#>v^+A{Y=FIDLnT{zw9EO?G0>
zG&X(EaW!Sh%J|JaI3~Fxw?QY%pDGI@2OXEOs#2PPXMit-($YpA`{S_=I5}d}$DW2#
zILaMP4PR#I@QP9hC+9k^ZIyN;{hYyV^R(-E>E{Qh@ac1^)Y(;8nQWZ5*U8V3?s8-S
zMh>da_8VNSQAcbS?cy;so-CG_cEiX)=ZhtQsd0F*f%a!}z3k<j89{OwIcPqrOS>p5
zySz1;Ro!Iu@A}2fO=8mr<pi=bmv(+N9olm^)>L_eXmkli4mz&0t>o^t@?+H*ZEMDc
z^<Fy#VC10rRM);v<)<&rbh#AP;nB-OrHYY*=3{wz<o@bfpBNc#ihjlIE=ANBIcPrV
zaW>v*UHmS?uT_LxX6}qsPvFyecch@qlby$JupW=QWv)4}F%%;Q9oN}5R*{!ICmeTu
z5tR3S!NP2Sk%NwlTG(UT3x$D_GwD@@7pn~2nQ(G4duS!6R|jz&&FGB}o$kKZIF3)B
z;4{UJk&6DCzL>wQK4wa;5`~e2>hriMf?ANiJLOAU{OWYaXdhFI98{m^q(fmJwRY-z
zhD0uX;$o!BhLdxl=j3P3UWxWd>BI|?le1avAMok3!`E@?o8-lO4=&0?JyyPQJ^>>K
z)#rRN<ML^JJJ)=E-`VUp^uAUYIjBBmhmuO#M?N`+_%Bz}R_hnz#>q*(5N~G1ZnWv@
z&6y|X*%d~5#<1ywj_b5i#Q5>`cdze$kp9W!$l~@aj2v`adhEF`g7=-dX>s;Tk1bim
zQ3sryC#O#E%bLDBcUsGgKI+k$okBP{sZHOuu&w!gEPUC<PP>4IjDw^2^r20QsN;J?
zk@@6imhbxhic<v`IjBCn$F*dA_Hrxld(IT!xc8N$8&1w^mj@mq(w`&^1t&+i7@Ew)
zF>=s(KPIuB;ryDI35JFwdXJ+f`g0@L^g+kPA^Bo6`C=J!GqJ|qF%eSVOK@^x#>1|*
zmrHGXARgcwxLh>L2O|d^SMky<O3i!w_VLtiG<v1$`&1Pp2OXD7o%y3F%a1At9H03J
z$5nTe;pCXfb>u(e{T`u1<FibE%7LwX7@y8Q)TVVaxmlXC42+F8-NN?-VC10s1YNBU
z-L5?rKku(YX7~6Qw>Cx&s?V~{h>V_P)>p&!G#q41X11cn$q`rGsr<^}Ud~g|S!uD=
zPcKvtVbcd4*ZuVUw!Mpa40couMfvATrbc1ppyN_Getvm_s7IdEeNoO+>=M=nI5~@M
z`!BP7>FHUNHuUWb(}5367&+*;%-@{O4fWzG;})(E5uFwP*8U!wKIpgv4L@tLKlG}%
z|E!?&<KOpRPQb}=*4xZk;BD3+!zd-8?IA2<ij%WwTVrq+wez7?`|gtCt1iT{;pANL
zY!;2%-@Me?zv;}Ak5}Hb58~5DH^lSneeX%8B~Jx6^_XT>C*b5b?$Pczf4L!)cZXT{
zr~LQBrZ_n)6P0x*CA>LnH<ai%I&D75hLfYk%pF%(D;svPG`W0>P|MZ!clh)<7$rz&
zaW_nY_27%@_Y?Bx6L50u7)lopTn=&epbLzB?{L1#6es8Gw+(LtTmoB$&d#z9PF+~V
zhLd9y+`ludlPhS2`9Qo+yvmmL0et#Ap66a1%beZhWKcHsebr<31e~0?n<efC^>5u3
zcs-zTkC|%B6eov<pZ~*bXV822e|Xt&a*{%vcslgIrFnjdJaX~8yJP!XZ2C|mZ=CCH
z_T8yjt0bw)dpJWdJ%7FtBM1F|t`mFPTncT@uk`<R(q!-}_os1;9CSZ)usSk8y*}ZH
z;MW^T(Nt&63UG30hv<!^$T~9X61mF~?|BTn;p7x?w{K?BRr~Qm??Qp1XwVjMoE)L}
zFO0sUqQ-@3?sRKhQ%lDCvCS8H-l^`hA0}Is?jl%qd2R80rb!7#4*LHNNb)ijC2UsG
zg!Pk#k%P`x<17Dc8?&8NTsEhAs+4PASmES6$QB!`I?}r8(Rw9?qGvv7+&DSWTj$Iv
zIxd7t2Hjr9WfiK|(}zuGbX>Ah+B)`E$bB|n<#tnjvnD4ECx<PlG2pw}v)2Q)5ywts
zy4PD_<e>9@&8b1yY$~<A_PTP=5wo>ILKr#dxP~sa$xU=s^xn5{`_N^4<o@6rZ2F-2
z*v)1=O4DdovDGCDd|0?dvj8Ip%}1#11Wj#`Lr%b^W@e4@85K92obTK0YX<ZMOx$TX
z3v$oU-W12kLC3XK_4eRf{g9)lKV8>X&9ly$>&2!IIxZ`{G4t-ahyA{9MLa{&T3SkQ
za-M4*yD1X3P3yI7y?b}pdrKdjoZFW38busTwgoQCg*+RW#pG~uJV!hGq&dZU*&C?}
zw$w%)o9n@+PpV3X&<Mu?%VEoR1xH`#m6qV-*xJ5k(r*dK8a*A$ps;yT%m*ij_6}d^
z+u|m!>VnZ*M@u;8<#2K=ZC2)pyf;c~H~Vb)+KX3it{a;^==qdMJ~;M~qgoSi*f8dU
za(uRJwaDi!SSt~j^YTgeV|%RQLXQiMn@fVcBx!F0hYVvrDCcoawan}T`5xd@W7G%b
z_?%L=+$fkdm@ZzKP<SQKHVPvL{eQc>H#AFY`fXJNjvG$Sj_{#*ej5LSz%jtd>2$ZJ
zaA=D=0330goFrzRZA;~qvw_2elk<qvv2*kNvyXu@-i2*FqdK2SG@lUL6gml<Mx2}=
z7p}HX&0p36rvN9%y=4E~sShvWffI$3L#~*m7_#nF4shIXa>A_@KPOtoqyxtQCr8Cn
z_vWI&oP6Mj<K!H8#mHB=x4RWMOgK5WKjxk(ZMvcjoblKA)=&MZYo}N78QTJ<5hv%`
zyq8pqB-t!*3UG2-ML!)Y8T8l!oG6@}r{SR=dE_7M1dba{j>XF%`Sp)>ECG%IPR_~b
zEv>C9P9_6K94F_Mvhzjdr>tJUVZzDjo$6Id_-Mcfobgxq*3bI&wVL<x`xXPI5hrJl
zSMkNnAAdv$I0ZO4zVS~+Ms66D0w)S5XXTpn`v?1K*8#^3C&x&_LV0DK$R6Mr;N;L&
z>N%C{j=KmPah#m{vLZKi_^OP7!-SJ_P$5&#rL*}8aK=0Ft)Henp^~?vH`M~C5hthH
zrY(Jj(^C&P1vohdVV7rjvGgwjP83c~c1CQj<ED}4z;VOLS;yL(Kv^_U4jcoV9Q!b*
zHWkzN8Nd<8$w|%A+;xMBoenrmI5}tN3VO_VuLc2U{3X8iWBrxB^_rqnEN~iea)fd%
zLcQLt@&ir*PL9u~Si!riKP3St3Ma>%(*HSKckeuK+;DOze0&U}kMC6njsZ?i`>Cj1
zl5VlTUDt`@<UGju%Fftl`P+Gi2`5LSNFqSV_1sYy*LVlM^|PO=?OQ?3&~NLx5hurV
zu8#5(!%9cUrvN8sFOTX=>O(pI|NMoMbE|Heg3XKT8|34LljHv(pX!~QU|`O{=Q&E>
z7W)|B<m85h`18n!m5f}yUixZOc!@Yh4*L8@Z~x|VRdqJ*C)hI?gKZ}G$J?>ZJNp0B
zw2zx!He9MXa*gKb17%jFcjXv4Xg*grd1_kj<;a~6QoSS;ap`pcMh<%4trGI}=mrIb
zU7)izMh==!kwjkcm5I8g-%`UYjP_R#P-En5MBZOip0ykZ&b+#;`zrsT_g=g8wK2{Y
zdVebHEN4S?Y2^N86NcWp);IM+7&+*;gjY;I(hCteH`kP!Qz@C3If!vwjL5j`sL$2U
zoSPb8zctYCwUT)Y8^(Ni5KdNwL{;|7W`Sv0T~39^`%T+1a?o{naowuKm=enSCX>1}
z{T&<cXJO=^&!Ym46mQ{K@qEC=qp-WrDqO1?BWEcxE-f7c-9`0>zrk@jj*+tp;ZTcN
z&r(Tl?)(<8&Uy>KQ+EKyeI9+E!fu<emwCEx+p)f5D^9VW-ROXkvlz)I?43YdcDsc2
zlZwidB^zXys$%4<Ksd%5zs9j&84(v?r}AS?9={!hk%J!Z%ucWTOjZaUc;-5yM;&nY
zf+<GMawH!nFC_|p+hqc@1p$j6#yY)D!^lC8uduDpN^@;jEO8lil@^g4^|!*vLDw^_
zQ9yvbL72Mac8R*a9I885uM^OG_69PToLrOFFCl-5&GFL<cC70Vo%hp<?sfcm4Hg?}
z&)!g1U6F$IxIo86pOC^OK$9SQzLTtIi_o#72^fzHbX;QflRGJk4aI?DijxyXapd45
zmj~Iv!Mcy3`7oTkHrw;*#a`gFW87C!PX8Broq)}(86VyWzrNkQJ2U|&$FRiNo<?cY
z3*eaI<T$ug$;caVE(Q)8PEJ)<U&Ps_xh2+zUl!X~l0~+^z;?ZX>Z4Y8r=HWRy5N)d
zR9k1+nb!$8Ipr}Mx^tMaX+QPfQClHqMr(?ZgYG|vba(3<jK7?)FJV7r;rS<1+!#6N
zagpS)?t<S6|1jW;w_(!<<#1Z8mQd6`!~vXgoE+D#<~OOdZQPRwS@z!(EQyH1$U*0;
znx{_fa;ZR`>Z?L)zr&j11{gW0&gqnSp_cxcD~3#Fv<Fu8e`LeRLGw9(#Ifz1L9PIB
z+FP;djB-pw_bzHV7e@u01e_eV<pDE8+i6XJV~UfbJp4Syvew<rbH%dyZA&)Svf<>I
zk36UB=9vEk`Lws-)5kL+itm+H@gd+O;N(nA(5|~HbJ7|(rZ_n_RMpNiW|#B;hYcsk
zGUmmTM5*#uMv>ib+XZ#n+n;082VKwkue+Ab3H7Z8P8voIx(+EBvhGW9F4hH(6;4jw
ziL&}B8CDwe@W*^7!ke~p<K$#cu35(3bkE*7pu_RT=S8eN&Diuo$5nXNVwHlFR1}OW
z4I>BDxqdOVpT{2YW**i!U#XDp#SR!bXg)jd+r1UKT14r@X%c+8DLh>WC#U>W`4K(p
zjH+uF9={WNWFj!wgiRlGT=Ih}Z0{FYGZoIMFWGz}>P!Jf4mvJwqY-;~p2n>E4t6Qj
z4MJ*eI63b{cfQ#s+!YP$M;s@o@QVdkSKgUa`fIFbqaM6oGTw+yA9P$_MeQY>+q{cT
z9dTU6yla%X04GN{=1yDf{?$bx9>SK7A~H9*;pEVN?b-BwewJD}Sw8-mT(gBZPL63s
z)M{@-9Sfe*lVxk}1}q<Mz^4!A`rhyBT;EyD#e4SMiO>!zz{#OBb&K=rqTq+)-3=oL
zUC)<F?G$Uag=K2Kpq{#1^P*4=BL|&#BL_AeFShN|V$zl$T&Gim=bquyhfnR1R<*hZ
z-QI-qV4ks|WhEFn=(xl;t`YFBGc)MxrLm5%WVZ^y$U(=&96<M(L9oraJ@JX?ss^g>
zsyI0bRn&ErZc@CPb(6j-Q>{KvhLa;Bs4W=nZ4%l&WqW|jDE@tUJwBbs?5582u4%A8
zGQFK&M=Y&604L}EnbOb#q3!n>`!20*qByFoij%{!>jI0%-62|Tzen+Vv~PHk;pF5N
z6~}L8=@7J=5Xh4?cX&}=hfN>!x!;p?n!T<aD-W-|^hChewy-=6BL`hSBUQFXs8gKm
z;$O~D*nSLavBJnf?=NB{=v6iZ&2HaBv1tA3V;8=QW8|RuOc%JCC^`!1rVbRX7^QtQ
zG+v8MAC#lGHo#=B>4b-{ynqa!j*m$JPR^3EOt((Ri@Dti7Bbx|viG<fPLAr=@AM5p
z<+RrID_Zu|({qXA<P6_%II|=4;<*pBLfPdnS=GmD@adyBelx&t7mGD;3UG1)r*hO3
zJ}iBAO|DAp$k^f~Za6syo-|ijCZEq}$y^ijL40eLI7SY-uNFp%eLdygE+V>@<FJrg
zdePidZ2F)arI+af&)0~56F5}9`-`e~MmbJS@M}rh*_ZNZ#rvv++~@k}LUD3-u08Uq
z;4=B6v$@OiDYlPB8(`$1$3?xhh}tn~BSBmKeV3~H_k=Uy<Yae?Mch?sS<#&;NV85j
z<WgfbKArtu@6vy0{W;>ZX2x4`-5%xyoSf>r!EboIsCLfVi}%YcULI_Pk%R7Ik)?~Y
z_gQGm#oltSUo|jvM;s#uT|djMRT_>Nnit+lecE}9dSB|?6MXu_zggSB(9G}nPE9<0
zo8oY4IZlrHUiX!WT<;~v&Ezkfect&r6e9;c@A%pDL^5?BS`t*TWORPazsmt52i52B
zD&`;Ad}^YeS?_tpbgoYvC#UrN`Ntm@kAEmI*=^YWF*9`TF*cpid4H<6E^Q((Lu~(!
zG~;!FSrye7IjBCX-tjLlbHBK6=$w+b`e@CDEQ}mfA0PK3ri9td6L(E-6osxhb=wUm
zhfQjuLel4zY;^v|UGH4Z*&v6LGjeuCD~-3NNb3FJxXg@BB{H0xq{PmE$P0!c7AuEe
z3{GnXR9E4fuj})X;|lFPH?QY&G@Xj<qD#QZS=8qi!}-Rpr)|!l(}!+<oC8J<I$w{S
z{0`K$-%dR7?OSFz)4ZWLPL8zvQO2E=o_*YwexrxO+LY!VVbcfAM>t@e-lX=EPdB4w
zIZ`qs<;!t$eA=_cbkY^a-#54}O_2R$ABvHK9$)X(7!DoQP@IPA4O5I9^!(LgyGE_9
zs94d>^Nyzkt#mLOMh<$MzCX;`W_-pfwBJwKY)?6x<Xj~-ozZ-R%l568r`Pi=I&0<E
zO<()G1SiKWp_gs@x3$;KP@ea#c^UfD2Pa2S>%}6GN5vLaYk4zbzw=qhVdS9mWml-N
zNzh~9jz|HWO{Ct__0$+Ss6Izuei2*z^y|4RRjX2TKiE8~uE3@<`ks-`K&yN1q~Wdm
zXY5Wdlej#PhLMBjlk6^HHF7)S(`BCe&~6WLDJzT|^!SoZm0Q;EVb?itmfb0S)wN%Q
zFmlj*Rw!0Yt-9?aHq|cCH<QhBV(=k0eb9VF;yr6^zHRNJ<J?b`W@OM_fRnTH4c8&h
za|gF}7%$@aP?5^wgOhWlDw}y5-3WV7^{`RL`mzL7j2u*-N2?kyyY4m9D|sY+>)qA(
zYBG!*RG)q~&owjGBws%1Ddu>zcjfo$a(p_M+)2()RqG(@vao*}k?ZXng^@#rd{=Pb
zoqWa9Q^8Wj%rldpSe9)Lz{o-MQ8Jd3nAP@F<@U{{7IWe^R>jCc_4#Ncoy?l3##9&I
z)6{X9;x08t4w}#VGv{ZY-tH5l%<EEae(+^`^#go5ze+X@rnZa}*GUYWuwwrHCJG}5
z-N&dc_8Bbed$G=^<@23>De`kx7&)ju8aBb!XPh4&SoB4lt0`?PTnHlv)yE;2Wt^UW
z`xr~Xe0bxTJ$DE1W77v6mx3tYEzh0npG`fRFJ2b<B)bG72mM}a{LHcI=d)|~0|#q9
zD5qqr-ThrOcV#PHGjiuD>~>|ts1FTtTqwReb@ZJ%Rry=_#Fjk|?qy=-pvM<8<;dZ(
zrl!rnp~jdG%860V6@4&xNZG`cS%b#YVgDRPozeBfI@(2kZ1qHcZ+*`56srr;<rq2W
z`pGB^6leB(8_cFrkUG6w^iBXyPU0=OO2)S3EK=)tuCrq%8&t)~F}0QNj@w&Ubxm~X
zn-A*Z;bb^DCl@8Zt84vcLZfl6*k@%{Zh0BD;{w$uyDM<3@?KlTj<?Sqt^2ljPXJEN
z6Ao_QfpgDh_r5hXV9j@8Q^m>Qro6~3eq+k^k@^NHdT*mVGMpTb4dl^VwPhHNd^L~R
z|7Jk6{2n%a&~-TGY0RHLml$4=ZSo>UJ;^c@BL~%aX6U-Gh(mm*#s|G7W50$*ZJeAB
zI!te--rWi*-MMB(e849vYMh)#%iDZ&dt`6d@MMS;zRQ1FeHWWP=yj$oYu~Y3r{e{$
zyq0^BDe>?`8b%I!e<AUd``GrxF9Gk@Z}GBAS*Z|!k%R7sA6Zzm`5Pw~x8}S&^JV+4
zFsvN(d=cUwDf?NW`ndT@<qsAv={g1&^FcX7Dm7Os<EUl(UN%{M^I;F>#>heURe?s{
ziR+KW&0t?;!pLDo&KCjpC(EacUCy!AWqqZ79HWO-AN2h7^xi|RO!nuigd`Q|p81OH
zFTj`&`gduLIJucQ#mkz&KA(k=vkVzm+4%|WqZd53ItqRW%BYj)8N|pz*J0u(F0!cB
zTOKK7Qtw{(SY=~9F3@=&W3gZ3y?M3G)`x7{zsq%mC1A`4-G4ImAEY$T_YYFNo0%FG
zc|&1^k%Q{<tz-7Jv2&7xfcfb~gW<NEX&5=^I`lS4zp&+5HyNByqcC!qkoi)snYB&v
zjIDnAt@G8jTcN{Pbw-c(@9q(eGO@n*`&h~oPx#rgVCA6m-d0t6P0nb2=Xsl0@>#=(
z!YqvALOIP%Y9oc3sbU3k)Zf-g8DxZF<e=lScW7;oSUJQc!*y-q#HigoRt}m^xZSBW
zyW;OIgX<OtjQODJu-TULMM(RL%SFX*Lly@0x5P1W(C_DMBF*1!St>CQTENu5VMI5H
z4I>Br&b;lwE<vx-LEm#*9!`CI<0_8zxIm9n{bHpPHT`dBBG&i5s5$4Jh;>}3K7pre
zSS*Wu-WH`azp$Q-I5t;`?R<*Pd%foAqk~tpf*TIq?uozalZBOoo|kz(_pB}6TkZ4B
zSf~EtE=`6;jQOC~E!IhK`Vw?IBZ?>dZ?v~+q(@=op!)Qzy?k;vwfA(|j`1~ekJoaT
zV&tItY|}V4LnmKWTYt&ov$9C}ZZ@18sY}dZ!cIGwP7Pi4Ju&R#(|!lre4+WI`k0zW
z_dc<>XIrJ7DK^)gfRnSY;U1^DKlMR5-_;joHr#46#mT9e`gGypa%#)HSD9XIKem{k
z4JW61(@i;wS8uH4*uMHwX(vp#m*CUKJ~P%!Tx`>th_=0wet}wK2{<_&5q*?&2R3Zf
zv)rep9kPF;DNas_;0nc?sa;jfMlU$U^wOQ#aB{k8?bd$~@rl!}5V&q1I{K#lHa>ld
zVyHwzxEb8)qjx{>K3U(IfRnRm#S>p<{@r~UZ`$r{*y6%yij!lhCEqBy<WNv^_kf*d
z`jP}Tj2v`deIDY_^NnfOY;sE7eNp!=`N3j*`s~s0@uFC}ykdj3xpUE>?3^r|oZi!q
zr-II2n0e(Ux<|>Zzuy5TCoL{RV8!6OY8wrP;L0N>S%q+N#5s1K4XOTku6*Sc>RSV2
zrh~We>2sW_)Rn!!`J7_(bz0e&zWZ4?IoU}D(<7oPPvmC`H?`}$ig&=t35~3NCUqof
zdsM^YrRsa+1%xni(DRp)RqGDP8~ayF4pek=-nyephLgiTkwbS)SX9)~k)QTmr%-YG
zO?*1<e&JnxI$m4u;Zk>+uVPA_2{<{|`JPP}@LF^3Vp+6FcsqBoDNau3v>$o8Ahnk9
z3Pnb}j&UkBoE$w#*RpS&XC}njHkwO0^j&E$!l%#Oz(gy9vg?up%%*`K&11U~aB?zK
zt~2+hPBUu7pFY>><~VMOljH3Ba7b}UW+cxeOB*9O-3@FwIUK7Z-*!w<e1BC-F3<d4
zsk!|IK7CvyoR(}_qE(U4dGN-*cf&ymI5|6Is>afHEoJBTmAbLAX42mjC#UAbbMp_O
zX<zgjJ?&lOH7M9{a(LINYnG_gT))3>?2Lb6Z-09sK7Fp0UcCB@-1HW0_;BYO=j-|e
zoSeMp?1H|_`3}ryZ5nvTnVV>elk;#?`cPN2|F+vh>AuR!%Oluua@GqUK1suR^Ua$g
zP5m!#g}mDf@aePV-jKDTt5V2pnY!<>Z}p!NaB^&`O5T?7mR@vn%b2X)=1FCWlfxL;
z>Kkb9nCzxhHeofpuYwIHXBodr7?~W0D!sby(W%m#z3tcW>2rc<Uv{(c3hHw!8f~+W
zhz%s*<OJWU9oB7^c%<o(mt5x?^3)V3hvntc?WzaYWiUT?e4-SZ*2;#Hv)yjf;f9>^
zPlae*Kb%h#>S@o%r_b)U!G62K#S@sE*ISD|po&Sr$=S0gC0-`-<w(50`}HLGrMjj#
zIUIgd=FcsX++Mz`UB}DuMVk#Lhk-+VvuKL4)UJt}-_u_4Z)nfMr%%nQpq)JXv>H<B
zH@tGUu#`@~$&s-8@_n=Ofro?HEE?1PrCz2uIY)13#HZ#uQy5nsjg(HxvS-7~aqU%n
zRrowkhURKR_%W~1_FR1WygV&Dz1o~w*8ciPYaENssRWE1^uA#IqoSiv8HHPoOTY6c
z56rD_z{o-GyOnu9&KCP5rwgfa3U3`)zE}t+r|y(<437!<g>k(PruUz_gbZH8r_UsZ
zV`fM6s7n0``4zfNii@&va#D(-^;f7ouGO{T`?C9O*)<289OYEDa2>&eFZZ#(oMALd
zPZh$+VZJQy>ZtH+o3D1XW2kvv%wP^aeJt6hbbFWGzSlK+h&{xQdN>Os2YrsT+~YGj
zPwqJ{cpl}3k%Qh}a7Z+U$*y_zrGKsc*gMyyX4)7z=sHZ|-r4cM#N%%6i-I(h*xi2A
zI5}#SDM#L&9C}%9p2O!AnR}x;8=KDPxOk0E=`BAbqYTg4(lByRoeMJgx25^b-pM|G
zbW!y(Ax8&{98@1+(d+}Fkz;b7m(3@K2CeB9!pZ4-$}fEJN>*4)ufVK}Q=#r)7B+p*
zd~(af>OvHv3x=w?3MNa9>$5O&P@S)yUE&sZHZL=3wT%<YH|ePWj2twdj^ix5S+#HK
zd+zmL{=AF#uqsZDTiukbfTc!6+@Tgh#WC)FGK?Jb`EzSO?NfTY{)p!?*2}$JcR$C<
zLC2Lg@@m`T9qB81kJHc3TqJ8Nzlv|ZRJ3+nZ)m;T7V47UQXQV88i12?<x!g?&4;ln
zcy6qUlVkF^o3%&pVAZu-HT;`ya50eK<eWWw;u42j!fr-~D|8{%O~=cx;L|6?A;SA+
z`u9tcH&gRsZ&)o2z{#=et6(=QF48ePAl*aN^~FIICr60##*!P`o^Hwg>f4Z<VbVc{
zlcSsS=s~lI#=56wl&Q%RF3RPX@#*8Si2JqSSL;KC7w&4(=7%H(;N&zNX%t8r=HpwH
z@L*}##biZQoSfrv0$$=lEBA8@X`2fgT?iw?$e~5vpPuT_A@@AlY?l8#XXtMCauaHd
z9P~J)SBu*Ao%~u&L}yl#(>e{>>P&1pqvwkl4l=XvCk>J)!U}13P{ajBVdS9sq=(+B
zJQAv!xMzl<h-b}*2?LBA^g7c=Sgfk<eT9I3&>Qn~)tD>X7&&M@t`T<%#$I;_!h52g
z3~c(K?>&VktZ!cRugDr$*BM~m!#h`vk%Q(l_?7+$+e0SWZ98Q)bx^V&3B}3D65*R{
zlzkVlVvBU<uqvgqHcrkJxwpM7nv$Z*FT*YBjLXhYW8|Rghh6nxS?=RIUNfxZo3j<_
zd>b!e(;4L;hY86gDL_)-e^CHEulz5ezqIOK)$cDI1PMk`fTRFP0g?hF1xN~z6!>on
z!1WE-m4rI*nF&5vF~t9GC|p0KkyhD=|95fO7f2MoPe=b<0qDFy^S@lR5Rwu4JvXuO
z!a72lliYt31z`V>`8OF4X&590ND7b?ASv+oPyqg4mcQ$D)!##9QkEnINDBNB3c&X}
z@IDppqu{+UltbJfk;A_e6Fm>0|Nqy&(^&t?V}W@9`&Z7Dlp9F_k^&?JND7b?_^T=a
z=h21iUp0SHUjLp7z<mi=7$x{%;qT=9)$V7|;|cNy3-7PMLOIEj6d)-;Qh=lYNdb}q
zBn3zckQ5*(KvLlEt^mA$f^ncel>e-S?*)Me_klmlA;psvASpmnfTX~`Rsndf2lii^
z4XJmM0>4iI_}+$?{eAS`-<pnqSoQl+Bmzl+zr6x*oWej*AIeFVq`>b{0QOyAEcAC>
z(ES<xdpp4St6TKnEy8^}vAlmao*0KzPEvrRz`w5o3+<mjJ92b?M%$x*M-r_k`6LBM
z3Xl{aDL_)-S117IH?Z)06#Rwyfcpio@c(6kzfk*y>fyZ`<h4*d)I&S4P!1No{wMbL
zQPB1aoxg!k%+ezjvWUNsi{=CI@LeeQ&<~6g^aBfV#4NOf@uK~rKFV3B{`bbC?ZJoV
zD(E<2Jm|V6mM4^h1wL3}<xo$|!aSjWSBTj9gTGfojQ4jf2Oa*d`TyR$|F4f9)o-Ea
zHE8@_&4+#R&&uo1?(feU7qNa|--dk`EV1}sU5=hlel`D(=ArqM{(Z<FtvHEKQsDP1
zfL<rSaf|*PN+F~xyno*g{yq_c`{gd|M_B*f1**fZN(d_#^8Ho){#7_|-38yf{;Ir)
z=>_*^&=30l5y}^`D2G@)%7^<vV)0P^tFEtp)pHQYi)2X(kQ5*(KvLk>C_wByh0-Ao
zEYyP!7XEGkTvx#P72=7Vx1c@T*Mf!f71RR<ER>`DLj7OO!g&?)M)QMlqvb#A!*wjY
zPlx`%{w$9aPf~!S07(Io0)I~h;Jorzy&r?;AjIy&p`2*}`O)i*1;WYTdIb0j#bd2U
z&$DnHgS9;x2kl`VQ9iNj3K$>y{s86wt9`g$f$^dF!1@3k(0UjrShW84`g}hLfcg2^
z^|(+saGeWr==*VE{ryq8KptRW+~A}0h5E2=As)WlK-U4<4&qS@-;<zRV&4~_?Xmi3
zehak&U7#H?yAbD(s)zhgK9m#FAIia^?V%i<4~QdH4)uRE3;WPtEiY0&Bn3zckQDf%
z6@c@>AKeczK3pe4Jv?UwA1r!)CAMz^Z=rD!>j(NHS&{;O2L%>d=RZ3Jc)kqB8|wco
zk61jh<Cj=GltVrXjeDVb;1RRX53%~cYB}C<<8Aj>)#2}w*B`C>AI<-}=uFC!qyR|)
zk^&?JNDBNB3c&R;Y8QG>gWiY2^L}E__kjn`)&GdG{2nG;*AsjHCP{!-5iA$M-Xzi~
z+|R>%!WD!#0fGhn;CdZ&gLd$|S`p!cjxb+P{j=9gzyS;GQ49QqEQ|;2Lh+<}k^+Av
z1>pDx3&$Z?I4;oR6w1-DKsi|0AHj!x5PY=#ul8ZT5FvoU1`&L)u<t<s!Gs?Yh&3bl
zhKMD&znR0o{rcxWpg*u^6zsFGuYeUI1fmw=AwTe0Q1DOsFn?g-eIZ!b-_i8~<AQR?
zALbp}fraw}STs#y<?#L;xX=!`Xusfth5W$6dulizq89jYJb(p#Pz(7H>kq~S^9Ab_
z`ayk|cZl~P1j4+-ynr4s|1ckr2k?KDRYE|ZKj=rSU&s@510QgF@PlB9#UWw;;I1Z=
zz<hv({@{Ax9~%C}3QiL8*-fzMdO*`f*8{9Km>*d8paZHe)T3OyKKlL490Amf0AYR0
z6Urf9`1>vzgmQG=U>tx0A1v(K;1i33a)<~2&$8PI9bF|@-k<Ck#s~H%oBwn;+7IkI
zaGb&M4;J<{us_`)(g6Agi&T?AIaqH(fHN9M@L}Hqi-y5*0rxR5KVacH2il?I1RcOa
z+|OF*|7Y7_jR(EJLOX844`SnjxP>g*9^%>H$M3YTU%>fqAsoyH)_CBfTv%V|IzZ#V
zNB2c2hvNwRg)HQc#z7wFxL65+Fb~AWgYqCAjsr$Q0PNdnJn9q62aWS3Bn0*x;lToo
z130S)2P!M!My4MD!EthjP!2wXb)hE`Ld9mnKwStH`fU{cuYf|r1>iP9y%@n4C$uji
zoKOV`^{E7(o{+CC!8#D~2AfJ47;wPC`2f!UHiUk_2TLga%`g%A=OL6B60ADGqT@eG
zi2q8cw<B0EglaNk^AG#QNkX7I!D3w>(9i#MOYC_5zpl&wmGS@V{QqqH{}mm7)i`0l
zM0x871z^$oe>WdJf5Q3Tj~XYOcYzN+SSSYz=O4H}fO7B`Y6tPaK`qq(RjmvmF=F#V
ztQ;K=u{dJoXnT@RQsAE{0LRlmtNZU|u-_6coBw;&-|{!HedqTM2JYjCanR!x{NJ0;
zLf0Fx521OX^AGtz9NLZ>D*h%G)zuiu8^#Y7ss80I%oE(N{qhceF%aG-oF~GC=fU!X
zdctiq8I;3#;duu99WE_Gyfnc=KSa90Tny_MtG?*^Ks$nZuxS0C?W5OwSo;V4vBtxA
z!4hkS=7ajg+WlS1VP8P)-zEQ_%@f@pf42Q!EgtqC$ZMhX3~>ut^fBc^{zAMzx}Mnc
zKJ<D8);a8>;G_9LJzD-p`%)M?z<ZtgtJVj`G)ZB<Qvo=>!TwI%Z|^681M8gdIsuA_
zS~y<dd<*S>gEmC3Q(zpxfq3{XY#|HrzseHJ`}gu;+&|0zce}p8tK&LCLvDf%#0a`a
zh*QBBf1eO1O0bdyi*=vWfg1uM{Vi0FwI9I4{RQ|x+aB8e*%sadLcegnJ_-d3SoA!O
zh67I+tswZ&59HxTC?^&VaYS%rsP5o{CDx8q{?8Q%A`}b#^J+5KN5P_Da6Z9mVV=OE
zJn-RrKDd8}bq4id(Y%Sp!8oBE#PJde;QR>nKWouEh_#1pi-!;ZdBAfE_<j$3hyx4d
zz(Fmset)*y9%%sML+?l6dIa)7nqhX~y$!mKhyh^z;JqFPE_}bnOeg?LY`vrF2sjWA
z7RvEj7~ewe;W;Yw3l`=H^??WHYw#C3Z+|8Pf>j`Z!2$=ZUk?=o3&$H$Or}XF01Nfy
zgoP!&<iARq2p7J*gaMKh@__nKLi{@d0P;ce06wZS>cjW70)z%|eF^0d4;Jd-`W*UM
z$R`#D<ybBB5BnK>w*~FNhy0-&)(PAPqxBF+vj4jRpg&kxH~%U<SN-qlE?5iC+ZPH%
z`}tXaAwJ%ESl7@V&M)Aj^-#W$h2xp9-TW2~=OdVZ*cZS;AnHRo*oEqW5B-6K_F!Qj
zfPA4Gt6iwwuexuB^A$P{IBwuLLi2|49Y-rL`sn!vZN`HX5Stgs0|_T1R*uFI^NIBb
z@vwfOA4Nh1JkNnR6ZnBxxc)3h%7JG<D2Me1<w!W00-=D|`5odHx}PM*hxTxtvQQkv
zW3`|g)_4sff$;nU{l2{biFZPL)P?VSx1$wA{6a!Gy6-|byhjBewebBiT+c7G?$GuN
z`LHe^Pq1h^=odZSZ3%%kXaj-|>lms(!w-Um>pxgGFi#K`2tNoGzQ+c8l~9g#K42UO
z_NQIQ7v_Z+V4-~&&U@Sh0C0f^`v|&jp&soYZ4dR{(12j!-#xG(<<K7X16Ut$9|-!P
z^MYW0d#(=gXuUd80QXBs@lU&G{yz=)H*Emx3>_YvKhSbwJ{k|}6XKyC^gJg70R#*C
z0z6Mbs(*XF1?6x(2Ye`p^$9*|iPgiphjop%10U@V%E7|;!9w|8&7$)`Y+oXFyux_6
z2|tL<8^jT_3-Qr*sII7w#>*lFKiePDoT!T)2XKCe>tZxdIB&vrJH(?LQKU!Mzmej9
zxPB!^0<eyIq5H^%)<4qiKe)pGQ1Z_Uu*MY;gpEZ7{^wYtr3>kEgwT=)Av6+v^g3n<
z(|=XK_cUmpXug944(x-_PX}RK2MG1>@87@@ipk)*7%Y_UAp8Ie<)|$o^rK6tK>27q
z$^YLKfa?y3LVYM-$U-}?3&mrt|J6LK{lfkMcA<89ut5?6iRFzRPpH38Kfkvg@&ZeY
zw@^K?cE7hA?e{nVh?c|i2M$6#?2E9EK_1W!ER^H5upXd4^m+v9flur_h2{zIsD*u2
z2dyCZTL~7P!xIVntr*q8kWd5Xf3zO-{|&If5A=E40^z?^qy7F?@smG5e_|GIem|MU
zg5mLm^BA13BMBEmI~Qz83Lq&!Qh=lYNdb}qBn3zckQ5*(@aHQ4*U|7E3%;v_Owi|p
zP)^MH607)w$_ba>e-Qm2v7i^!!2Kimf0X^z_f^F51U<o`am30Yj@Wv^dS441tahP%
z7UIDDCA^PZh?h+O!Z@+c3mg~l-gu$B;QbIMAy9;1AwSdt56ZzuEwOyjbxiEJKgwIE
zKQ#XL`UMyPpdZF?GCo2evFAJ}2i6T(v>x@%2nF!`huAzoxiSj)oj&9V7I5(W1U!d>
z@;};o5<0;8{Opg;XCXeUbFdKKM)(2q3gy4o3KIaZ9*FVayYz+PpuINX2do1a4_Jsp
zzxODF3XB$w2R>M07&uSBegt`<`|Vv~fWJt&IU$d&1nWewG>9d*WKa(N@3pZ1fd!rs
z{J>~IfB60Zoxg>?A6uv!`2GPb#G`pbIcnj3J6NbMCnO5*6@&>D=ywC?I*0au7rW4L
zzvUMXgqy$v3wSN~L9h$u1>yfH{juf;c@nd*Pl1KF?eK$$h3|skxB?5|Ch+4I*|h`?
z^b6R9`hoXW#M&<<9B1qRBw}G7L3KiXBF%rg7`R}G0e;mwfbVID_4Bjk@VyjRXs-%C
z{>2u~$G<8Km?yAsp9B`>3BF^3e#PL&zo~`s|JlQXenIy?yMI!D|D^!>yb1OH)jGlP
z3VEPDl#}eAqW~PQVE>$6NxcwL0KH#=IAY~cPqHKhNDBOM3c&pc*k9FCAOb>tr202^
zIblP9>sj#sui8F>GJm#3*8})WgnZz6>u(cB`ax2FqyR~Qe=`NB2<IcPY6Ksi2jU&B
zFrlF~fyYVyKS_}k|I>%}v9SOC&)Wa*q3yU9xKRc!5YYD+3-t%>{%i~9BY0neK0k;1
zZ?KRbv;zz6;ol2DImDwD;-Fj#ejt{Q-~$iU843Ss7v>4LU;)$xKM?z~^NGg8do!>R
z1U~%xx8npKEYdxhII_+`Pp}Z5Mi34xdc283Ai=`%gcOs(zn>=@W@Oe#059UB{ebTP
z03`kz!H0Q9zZcnqv<pVsPayS3^>6OB-+ukq57bAhf0=s+*@s~M9uRs!#|It5us#!n
z0e_z0qyOI?v_mblL(5?q5vxbz7xLAS05m_e9{zv88A7|SNc-RG!u`(g<&fHw6d)-;
zQh=lYNdb}qBn3zc{7(hoK8D!+%Kwc1<GhQ68&$Xug8QC7uE#%z4EIma8{DVCeU~+%
z0(^*v`z^Si$|c-~EGB#)R!aCF=s2M~ieRCipS5sb7D%|EK<~@`totoud879qaQ{Or
z{?9J|+4~g(BtcEWfD(V_JR;b?oD0thz{2wtuwT-b+*srDvh||Hxs0}DAtK+aW9;Ac
zH6OYx{OnZiq2%_iRkZ0D>^G?QsTN)PGEbebo0Ctw>9yF^J+k>77GnC>ySAL7xGJxq
za_oEMFyjp4jCbp?nZ5_dzs=fysa3fjY0|oJuhQKw@1^sa6<%@<Rpor%XnD0>?Cyif
zFLUp=`TEQ`PsZEbG<|gS!Fdf&_Nz0tajq5@$6mepc9*x--01u0sBDhP*NN_?HJ1_#
zE^jlRAF8Q(BY3;v&7-f+?K-(1ol<$SQ@s5-&Fn|@ueRpf4qgAw>ht0LNZ-+-`6y;z
z&a1vFt9I_>b2PuJw`0vm(XHN}b3gmXdv_oIT9m5qKmGN+{&ClDJ?H1HCv((Z40Cv1
zpxxx4k?tUsV0!bq+}%rduf^2EWtPz~pVdBpS}RCLb5q|)SaIY|jigY@FfG0sjkOh-
zmo6S!qIq}txMKRYY{v(6)trVK7Eg|tQC|>Ciei0S+|8zW<yNO-yG(32ZDn5vL!Xpl
znM2UV*ziwWMvl#cN-3`gudUd<c0Sv@Cre+m#wDXUv)EU$vbgoGSyl0A^UMPpnT;~M
zdM=%b`(G5#j?)(Fy(K@8!E0A+=xEfbn6kN3`LIfU5$`9y*3lR857*wOv`z`83!FN8
zj=WOnW3=I08P5(a^*c|kc5o>-x^lgL{Pva>*SUuY*VnQOp6#aMh*0S+5fh%!r=(~g
z+jqr4UU++MGS$s%<}BAOuB5-(CvG4wVSHsZyWq}eR2(Mx+BTeTuLMTd7$&N{&5|p0
z=W5J%zbm(nj^VAqNkiW`)w{l5EHBc(sJ4}0lUp2>c!MY4%sJtA6r;l4)fqO|QQnTR
zZ=+lWVQyo$cRyX*9DE`rkFIj+)`}ICKDXyW4EOsLU2A4KsK6ep6X_s-PBE-@f2^*+
zxsBc16!b>|^rc41pN+QVx42m;u=}W`soTA2@-><`qEY!qdNd<A%;))2)rmoaM4!Vc
zJMM8cUGibvyI(g+iZyjs`B^xZp%~N5h$VNLSn6u_>id)#jm6ROubtYrs8WpD8raQl
z3^4jUuU$EN>tbi8d8INr$I5MM9OdG2Et2x2ZFtg7oFqRfyo#AkHT&4H%tN1ZN?UFm
z<mGT#6D@o@l3JtPTZ^Ok`W+Wj*1b|AYtv55Zp@PS46$U9W&X*m48@UO=lr<2EABT&
zJ}esXJ6kK&miTd5W0vW>c6g!Uk$8^)kL9DY%oNHJqKo@dwuD$|?^RnY6&140^>X61
z8L4FIQ_kA`yi$C;8#z+a2c&hSrFCPabSs?`oE#Fm!a_WKTb{e|uFmI)4sVPKedOR1
z!qGN9os_S8ZmXs`?dnVls&#F><W8oiTt$*?GA>b2F0CCPcT!4He>;66k@|_fM+nEW
zfv;00PeaJJq}0os_m0<Z4wJqYaG|Z>j=sgdtsL7=*-B@6RB<#%lQH-i40CWfU%lF^
zA!n}6%bL!!>~zyOy>!0y<nnkYj_tu2(wXjyIE<p17?iTC8Is;^dNg)1H}W+37N_c7
zTIqi7Dh^B4v(BcaIVR8DgjeVB#L_iJg#|ebZa(WA+CClqbt8@Uar(!U4niFi%NI%K
z_r8<r%yN`l8POJ1L+PNcsU|g@79xH0yCBt9AJMcBm6X}J&t~svBgnTL-}WQ(+viU*
zJNqn>&b2ODJdwQ8c_qU-H&Yo_gT9Xb!sZ$}%BA&>PjWP9jXtCL@pC}Nl}akM?eg=_
zUAn>QMH6WuMUI<lWgRcYFi=J$&$^XVI5Pf_Zk*i7u=4hrzEaWWGm8o$ZYLxu3)qMk
z?6(oO*VkMu9ThI3m3?4~-SYj3Vc~oV&6+HxgS_GEye49tx;4v<YHVER=|yj_8V7DP
z6b-T5Zhbdl<)o6qr!_4*6kcfxv-R@Eo<7u+VdlNez3f3k(o%23#$l#2rw?uXGRjaK
z9_2Yu_3Cg*cwp>+mF}7F-WM0-MZLtdlI9frN|4Ult7aQRS??Ap3oYklY2a^lSJaCY
zRS~LEPw#tkC(SJKs?vQkMdSDFK8iUrJ}m;r_!MMPIuod*H+=5QHMl?(Jy`9_M7KVf
zsxZNZRV+Ki!bQM2YS*Iw#J%UGTYosZiutaOj`SFB|IFzT#;`9-HP46d6ED|nqFc+e
zqfa#M(6^Bm^JLvEceR&LnDa^Uh|d2gHQ9Y(@Qz$!gjY2Ek`iruHS_80#}>JapLH9m
zo*usWpY0`9yt$+=Jz^89{O-^(Ay0F@rp;Rm5^VTIvqNGBQ!Y1|9T9Abu3Yi|GZ?Y?
zJYukW^<lFZ?Zc*u@jEIflE1Cux65s5)w@*r=1wNZnf;&Y?+9+n8Cq*~<xVoEicH+8
zwSFgk<s2HeP|HL`d7m-Uugj5_=rQ@^?xkp?&9z&Ik5QOqlGfR@x_C-Nw016wmyaQm
zIc5tB?bDNC!S^aIu-@39rC*)xb1!O#god^-GhgN@X|euya(OF*lf$0S>F}!uWvXpf
zJ7PMl_8*&breOa*MRRQlb{;<Vuw~6pezZSacqPhs!iOh&Uue`0A#H6&XN&4Fd2(qU
z!M<L#n5Wb{PYupQDYunIC3Mc!c1*bOJlz)*b;FL1`bUxD{X=`FgObmjqSFyr8^ou+
zQEmQ5M>g|b@kKuxZ&mQF+`LguczTRBDEAzz9*^Lg{Y)|1kEwNnE(Iyt=F#1W+!jAf
zBhSvr8l$U4trKDsG+o#h{7A8@Aeobq)o3z6T~0_#J9x|L_8-g|0<-qNm~lnHiv5SO
z+s!v3&A)t!af*mKM@V$v55SrqBgz=tT5ovZ@<3Lhkw?q!Z27LoTlMZz=ysN8|4@{1
z+aRs85>MHtDk(*o^i_8}Uyfed;pAD@G~OO`G<POwsjpf85gNV6wkswJLsmGY4qUHQ
zzcj^psW*DXTCUx48{cfMQnR#XpzAp65>>zbN1oO+7S<aCTUPJ=V93S6CBJXHx`O8<
zRV<zF>06?imM>N@FtSP<ezA%%Y}uq%X;*3AyFI&x{y~S9yYZVVD}(7@&pbY96Lc?n
zkL>7#$HyFbwe629gZa)aQ;SJw<2jb=$@B3L`-lISg)L5-Lu_u27s{pu8%h2c)takn
zvg(s*;yee_*>5N*+xx$MJK|Fk6~pQEpAwD~*0LB~XO9UvMaN#s9z#_{?Yp)<sy;vB
zYPw?AdupA^%H^dM9NV)x+7J1graqR94RY`?Roi9SNppEvYTIyziP~aCiFD;Q8@2GU
zCo_(v90#U^L{qDl<qf=xyy!!5sZ8>qs+0a!dfBMhHEdO0dB+kug|2=2#4Vk$qmbi;
zd8O061640v8m?bj5*@j^Ai*I$RyU`;#yQ_p<i)!FrtH=)M@wQ4OI2)DSZQk)>HNB;
zd6cs!@7fQ7o5*{IpxDF0k88MI+>f0}uanM8u1S5kRhYw;KQ`<}bD!Dm<t-2IUr1%V
zZPZf96%|%!lo5XMz+0Z{Z}OfOxht%3<>x$G5VO6?w4;xs_(o^dwDhy33MR`xX^SNO
zmW8!QLu9h(&Ro7pYaR=ayi+?`4>6eD+*9B1B&4P9C8N#(QQiIw_0qH1y`8~3U*zR6
zEsu^=q>*f@I46EixOnn{b9>F$q886X)w03}SyLpwt9570%9U@*-g_^iWt)=V>s%qp
zSG-?<dbM`FpVqBWev_5boZhQeN@r7+yK|83d6q3?QN+y9VfaQ=bx}!j{=*QDBi~<T
zobAl%*VsTN-{R3xk)9I1@|rxEOx}QF#o=5FkJH(i0(oS)7Zi(4^|)Bl23EEgT=-ma
z{Iu}LdmaI@W!;oQWSLZ~B5k&0F1sU}4>b25E~);SpFvefcAiT&*F4g>z*?#F<A#0j
z#|~4kRLY{{)^{;4Hqa9_$sHj3ff}9YPCeFWaL$a(NKbT6mH?}Wi3gdBX?=s(*bc{-
zs(Q(I4ksfzviA?G!e-dW_O#f(?S8Cy;`!=E`zam`N?Y4q1||FV8@TH0Gs{P%GQM)Z
zt;ueuS@>e=oYA6J`b$^$3Z4p|m<n`hZ+L#NR6<WxKl(Ve;Uev2GP`oCnK}x1>yHmy
z?o6?#^u6Q}#=k3Ibw#^dda6r)djro6O_dM%Yfexm+kQBCUfkZnwDhWjsat~~n?h7(
z<f|ixG6s)DE$@lh`lPAA>P+U=wd?jYmnv!v=V~jz*V!t(NOWCzMAUi8$J$3u%dCID
zN4<sTiPXv0RO=SSwQ;|6GaF668=u8vHvWT6w#}L8fLxwenUZKKV|}3C<rtQ-#r-q^
z`m8Brb5@0!Cmm{Ij$6#^T4glIpC)B}^6drsbOz^UuDu__!Y#?&*Y`aSj+uODqeImc
z!hfJRdxOQ!ct;}<J^T0k<;@%#dvu2@JIB&SJ<LDQRKMH8Xzj$dY6p2=nIXUU9YNs;
z&gvFHt%qe-4at-&e$)j}%GAlMZvV8kuyeo3T5&Cgg7T0K*=1}4dj3CZ6L`df<9iN~
z57)dZDHdcM7r1vyT)LcmmHn!vb$;7q`_;bl=>BJmIEvvldj-XhFjT)UBoj;KqN{c{
zrs@dM8$FWT;C)j{*RF-kNK=*NnnYc3R!!M$#Zr%%ZH1>}<Z2(~D=rbXaWSQ<|G1Cg
z>{thF5LL6Z{f;kPd*<(_WLy%tN}ZX%{Jz018nfJC>Q@E%T|4)E-0-|H)_C#yqGcs-
z>t6af9h7bNGE3YTR&FOle>-KjtbAmVRQ|NYT9y;_BOI=BMYku?l+O>_B$<c_Cmsq@
zO{w8O+M8`2$TF-zE}QE-)uR2e*`_h2I`TxA>X2|Roo8%XRcS;y!|>2+i>llbr6t1T
zaUIlOWF#urm;P{UBI=mqUYjOLKlzYyxN5}vD_a(IzvJc#))W>#hdcR|ZsDcM^imP3
zah$1YJ2xh9#Bd1}OK0>K@A!Dx%Z`hm-$v)%x*aPE+8+;w*iPy1Px$PwpPmy?C8KqF
z^&XEe`C~R;*HD$T`O)sIYTvEov#85aNp8>B2=(hrMUm>Ci`4VE-dNeuFQKZU+A3<@
za@3V&t~C0Nmis-4CHKdAdu<MAO|abZ<uKr!7A^BEQCLz`IY|+Gn}@k<-oB?yr%K@U
zm4JxXd{#WRQ}ky!?iFsK=$2$NSLF`oygU?c(bXj|QxKATpxx}ThKX>c$L{RFlxK4s
z<m_M7gub{=+^;rH89I7s=Y02y(HkAwUB*$vEmHO+?(!+`YhtI*q+X9x9r&>Bd%*4M
zF3BqUMa|+5O+IZcD!Fdbn(%dq()Zi77tNoS)a}+w`=HAHl`;A0m%Z`d7nLsed0BsP
zx8F-S)_~McTiB9DB{C0R*nZ)P&Onlv>ooP+lVKa~#OPLhnb!|zklE&D6qB(^ZQt55
zvuBsq?$+|&C3{UwcF1V<?Pxb6>-RVQ_bt*5@;ijy9zD&vxWTnWPGj@C(s`9oceS{A
z?|C)G8RosqS-Mz^z4wk=efu6*6%+cj-{{990zpIiZ(%ClGn%;`5z)&Na#R|xjAVSI
zH@?86Dfwn{Z11ELe_^Spu^p4dWTt`Vi`KIe9UH`y&-j1&JSTtm`zp<iteFiSn)1W`
zxBTliOh<q7)yr40&=Wm;`cBWr8n^X6vZW0hlXMSPbp>44eA*fKmW*>K-ZCOs>g~)-
z!@>HGhobp3G>oFZ3{2Y3Sa?M_pUP-o#^TXop*&<BNT&HQsNN++DJfMXU2>^_gTzwH
zTI0*ZBI?YBnm2l5zm?QX-mJ><@wCnxI^di;+_rAmD=W*&YU=RClR~w0w>G@p!QK@7
zE#b_;Zf<{X<9#pP_mq22og3^s61t`K)MjDB54#?&q?zgQ^Qwz&K5~8W!^BmUh8yfA
zGXs}C^LTAWebsTDrJwZse#-EjCsroDU#1a!vy96;qc>Tc*J1t1vDC4oF-ha7yCXZc
ze2Cf4?wT%qf7jQ$bWB4w^K>x-8fQ#)7zN)@yBH_Er#t17z_5z5;P~eo`A?qj?_ZY9
zy)j*cH?Sw7e_g~=C7l&}d8kqgrV|fle!9;*#3Djg(OPuo*kq>vMmoQZ`)Q2@mc_+9
zX$f6xG@Q(x<C%Z=_9_dPe5Ju{TB}qN=<KI0ceM&LXb)eoNX~!RAnMLCko;!0UcJZG
z=$)jq-rUj0F4f#jgPTsj`Fh3c;U{O-``JSC6i3aNzuGDZg?+Q;T2|#vdCc2T(f_Tk
zU*fuHdH#tul`h-B!HrIOOO>v;g!0h8+oaQbG5b|*#;TLTC5IFf8qfIZ9+1Db-@W@{
z!hJrC7A0ohFmn%++ZWf?rq{;2+g~rUufNIOgYTud(drKNvU?(HDW@X4D^ur&Z*+eS
zIwGg%`zmQtP=fBsm-lX|hg%gSE~*sLS5moVEOSqqnKBHNwWIUMRa@(P@X72YD~84D
zADpxj=JP5(R%|&z7qmMf?xJLbL6K}=#LB*d0*r#S4;qYE4oij3SXOC$UmwbSJFw2-
z%u0FZho3iB&-QMidNciw_1wc&nNay}XCmSiqFxG#OLV^1N$T$DvIwtJ${RXN-a245
zSzJWE;fCm_+3pisNy#zSDQx;^k49S$m(>--@@ouIbE*lk9uCeU8>-v#((tZLSm+l@
zVMm)J+klk3;isa<`1{knLNjZ29KNn{PrbAKrL~=9Ls0v{@b*#Do!<<5e6M`BtaHov
z{cwDHL~eSp&Xpx=vRamYd3jXjtb0(V=+`G_b64hWWuKNlDss#%x9$Ml@lD~*%gbu!
zZ>4RLFq0|f&I+leiuoe2MMOnhp@&LY_HO$#hLG=)-P0qPlUmnw!tYQ&Y}&wiVACiQ
zUz1F1)#5W(J~Y>)Xqw$()mrMT_|#)t+O;)#FL<_9xtF)C+1O>GGCj)QbbH<F34R5-
z)`)CH*0#tOr*th9E~v+cTy4pW{A@+Wdy-PyLSc14F|#V!Wr3#cX#xD=ox)Z$hXvPL
z(VVd*(@j&-H6?d`Zbf}W^gxbM7XNxRH64YMnrTJNK@_|N?7o4T+7st9%c&I~ms3AW
zU!*z5uXCZCmzjQIHFf&o!mG?F4~GP3>dNcZQ^fJC?Kn?ux};CmT`1(Cz3wxiq)Ii@
z@38^}Ol`q>Z0j|g7_J7MilX(g;^<A76!f7kd2dHkSP^JbuyJGVX(4m}mUTvN)c2G#
zgewFucQy?Z=BD4)TfumAV38&d&3esP9;sl%ZpE1Zn><B_aGw*D>w^pJ0yf{^2<A3=
zXiOH8<HQ^(McHOn%;`?4sBrdW^3|iX`VYl#j!7|($2bX{=Po~BeX*PU><OV7soe8v
z&&lhe&NzwgJ@dSUj$WMK@`<**sYYJJBB6XwdetPEoa@KR^Fresy<}y3F7;>0tmV!f
zUsNeWqqyV?lk}KRjQb#u)4s*-iTNRm?x^jkWJ;)~Q4G;_99a}1Jju+a-Yj34!&J`Z
z8ba=BJ<6;(PTt<#m@34=R>L~#RV=zO#_1xt$D?GObJFLz^5k;A2M3osuaR@1;c`>7
z8B%{h=1S}2P91oxhwN2)OApzOs|-ua%eFEsRo&upO1+AXQO<om^;7^wqvQcMviTr}
zh(PP!lNbHW4a8pBGF;am?SHAD&gJHl_QbqkbHL{{u7(MQOLL!$)R~;-UE<34g5NFu
z4#TO$9Y=bu?^(+Dh1;8Y$+k2ZO&K}G#x-##qhnb|qm!t<e(edEeX^d)Dm4FL?+F$A
zOGc%}<t%w3OIO6zggb7vbz7=%dEHKfBT7QDCeDV7Uca|IA(zTzbaL_8>hm<heq<7t
z13VHGLb>Hnn1#PwWEec2?yUN{C2eDUtQ=1Px9E=B6^@JOZ(MBmR3eL}6%jXnzWBtN
z+{^tH8}fE>ySmH1r92rHa(H;pc_Yz>EMg)tlP5Oyr7gOxQ$e}0nAL6U_3MsH%4=z)
zbna|kJ>q*c>{0%~Z4wRTUO_I}ITT$?pD4GzsTf;VpA}QUXL8F#R7vP*hWttWYclk+
zX*#mG!=}%e?SdJF%pNRqrOGqN@i@;dXm0&=clgUsMr1-w-(E51p1SmS-;-3Yjf@kU
z#|%O_Qno(iJ{IfX{arN8c#q2NECm)l@*)=($)k4@LQ{RuZ*$&6DPx&q>_2ioqsFA7
zLTdE^asTw&B05pwm44z;B8q1{4%t7NkGHB-EGx4!RDC+u`hr}R>P=;Z+$ryCb5>UK
zGp`LbHq6nFZ_W+7BCvfaP2A(0yG9@FEE`LD!;QoE*Xwnt<S-eh7~BcC+@Wkq#!)u%
zAzN8{#Vvgb$BcQuYu}>`TOTfZvZPVBRo{hI|D~5?qag2+&ugiSI2nglF|S{d`i;-Z
zNLi8j*pl<Py<@txv*qW<230?+=DP-8q;Qr$s<ndl?b=hD(r+1+4hhCSP}#w}qj-ly
z2xauNiV{tik|t;MXlPE+oeuL=pR&s*VzQq5h$+^VwK|(eq@*9uc)Yh(HtziX?D&H&
z?6)3w_;o)$IQdGs*28;9b6H+@$@1wOslI?^$rq0pSIF0L8MNJ>{!Vc_Vl)4_>lBxm
z|Ksw>`Cz9ETX3QOj!oN>{~rKOK(W7kT>E7gH0Zkfz6i8T+gxSJrKmLCub*yCq$I<V
z_q^dL1{8w}>p7-)C(mj2@%r8M&2@ZNZ7)CFhI;v9{=+<*%}jOlc@~3l@iN%lx*Hp2
zv%K`tIA3KO|K{y^_D%MJZ_gJyQ)QJcHktETEI(PFRWVqzKRxQ^ef1`L-ovhA^PSo3
zqdgQRw?8)zon79z%Eifp;fKyI4#6I*UuU&n+fe0YunnR672U%H1^1HgosWyGa@&`D
zcRBv<swneMFZlL<zpNKLWVx?nb}+I3%FABF^8erN{Os{(ncE+Vj`zp2QS<ETJ5#-{
z;|CM3yZ_!*7uAPffBE(=^ZQTVXJ^gV&bHQH^|<CoUH;boU-OOG@LBUCGq<+B``aF0
z&BV3tr6LynXD-@3liw7=j>115en0I63<CBh59LU}^ZAQx*;GNjcb|ex{Lz>9t?ogk
zOGrOGD=~fe%-$XX<Hrx5#pA(F@qhNudCp)6w6vkiH!IhE{`Mjxu*06lF8a?Y?6$Qf
zXD>#zodvHB#`EBD&nxz>l_!S}14}n$rO{n8-@m2N3$wBXk6z}6NB`WdI#~4DXXPP1
z{bH!|j*8#g{mKR!z8zso0)BZ{_-p64G=4Y8xebk9blqO0@|#sWjo((kRe4M0Qzm$q
zqxwfFfU$tWl1qU83Sv0Y1Qc##quX1efVL5q1y{f^a!VlJnLraT-d3Rr2)2q;0i3nZ
zNWd3YtZ4%J{hi3Ggf}KQvvzrU0mEk|#^6>pqazq^@ii;4f~|nj62}UPlCdUwYNM5>
zfYTifpKY9N`Xb5(;MM)0xG74ag2@pdO~Ku13r#^Veru@;s>0=51+hL9JOz`pm!t~j
zZ|=v&W~qK86v9bDUizwiDxp1|By|0<3Ber661s<TC44cC{31BV1yc#Z8nT3bq^3&P
zhO$0zC2$UJCK5OU^#chp-*F`zOt79Sfiqv3NZ?EtCK76I0(qGFvUBWGI8uAZZtfaG
zo%2S@ZtBRLvUC!-V?-yx`3>Qyb0UE|MsyOqy<wLEcZ}#Ha8{HP38XP%HXMC7?;zXw
zrfb;JGz@E*%56PY!^&|6%dv*mbwJqcdY~cJf&4C5<K=8JcdE>W*Eahl-Hj<~o`#_+
zP&T1Y8oDQDtFrclDcpQ~AX1c79V|`6-5LGbZipg=V{*ogos)=uZCALxixo{o*C<W{
zXmSx}<BD1O=scsF7^~Qnq!YXO+4%ZEGrPB*F{@iVp3X1|V=)=YzlzdmFE)|3X~!0|
zW|CX)t!H!@<9qeQmvXvc-;JfG;iRJJ=-1=>Lotl;$#q<ecTH{Fm21wui<6M%Z*6e-
zT}`D4849DB{H@B3t9CRY_ouF`6~V=H%fjqgQ_<yk*Pv@J<?3%sD3Y@`PfX0qwQCkE
z>8FHeXVa!L)LdE%TFg!rx9Q{K&Q|UpyMENL)AzZHlZ(-Bo5r*XCjVrknlh=Y6ts1s
zSfQg6#7ZxkgIMV`F3_Paws3-6@kJSsD|U^dT&ZCc<cjx(!2ALEf&v7~F9V`r@$Ci>
zEO(`%V6h<;1k1gsAXsigm4a~xDo6&7pFlETdj-jW<5fylFuQ_i#ODg45sRw=TDn&b
zq7h@O0y_0PSHsS#!InB%RoKKbm-<&h_OODj7;MNk3$p>otOi?ZmQ`SjeX<J4V`7J@
z0z3I)OT(86vLQ<<$cEggVAL9BMAe9y6Q70Xz!Nt!73Zl2Jb5EmaeIPr%;*WiF^{JL
zTz(^10WNn+D8S`ca24S4%eNrBy&Ynr^fH+cuH@nb>7aoVq=Vi~6}s5AsX`Y!HZ|zU
zH|>>tni_PuMN@+=ciw2wlOJ6uc`|kAQah#wUGB2cpeLVNDETin=yL0&23_vD)Sw?(
zeI4kv1nHp7QiD$G=RtF&2A$T=gO*ASdVe*MNau_)pp8?5o_>^3GH-(TZXrjgcS^QV
z4Lsl&)xZO0Q60S4C#r!b4D(9vP!NwALqR<12?g<}9aM_fa)N?<*aQmmLH{Sn@2>S$
zcDql!TYtw7cI|T06oCEA;KSBekPo|FLH?JWZP<BX>MCvfQ#0IZ2!On{pn#KOB>l`!
z&F3o>pl9*bP{1z(%-9PmQ1JAk3hu^&<dY#iL$OqWqL&zypkX5hCG?}xeSJtNLDR$x
zYEbbngBnz<%b*4o*D|O<#jq^Zpz2kYinx5(OEYfks+*;yI$psiEtK+_7HO%ZS9M3r
z|Cw>nAB}^B4rv%H^)bL;>GelB81+fR<kP<)o}MiBXv1W&OB*LkecCWtyhxFgVXrof
zmfyO9(efL`I9hz)3P#J#;y7At7l+aEs|PSz?p24;a<{r1jr-MMcGss=B)0s#A7%r7
zd6*42=H+Y!&pZrAT=Ouzn;LFB2acHbRp8PiP8g0D_f_EOmtV_~;WGI<*GLY~p-Zy^
zl<1C0m*xk+bSOapruWP5a!sU5&(dK!v?HrP2ND!?=+X=Y6}mV@0j5L$)VK;=oZ_HD
zCv3%NBsswJ(}Os4C`kgQx1H>^C|5kXH>{qvrSsZ*OOL^lemj&QBB!gQh`@L(M??#s
zysKBq64AjEnw?6R35>_$OkjL>A&GFbb~T#UTVFHrT@mo`ysC$V*}!-#QAPzXH-4+&
z<&HoVyxbB9<FRBJ7(d)PV+}do99!&whVjjxSsqO4$(B;E56lOnePBKq?xVyP$NMPp
z#Q{G$e8OE1rH~&TKH<WNQqYeMpK$d=DeOm!FOB=r;me~KbohjspHk?L4qqPoqr;a6
z|LE|Ky#B9S_4Tn7JU+4i=~umhHvac#iQbi@{s#<yg86;Xr{D8Yil5Tq6Xzdb1eFe-
z*#5y7DjmMu7Ouu;&40i!Djhy?{?qQhG=-o1l<~xGw_gtRs&F}t?^dpGF?Ii|6bJ?j
zKqJ9m0ca?gjsPGQOh*6^45lSO91W%;fHDnKiU)%QpaEg9fcu5eoG74*CMF*WrUH1C
z5KU==1)w=?asgUNZLosDC)7@eNM*1ogKft`!kSbouTDV$m{<oZfHUiG1!!s=tN_lf
zgB8HZb+7_ByH2h^Exk@h0+e3|OTZKCU<r7Jom_%mik*&zub~{UBs*BcFjJ^KW3I4x
zcwvz+Y1GT~!!_Wkey|3GTt8StyPMX!WSX8bCa;r<>4LC`$s{`Y+~NFT>tq~oJ`%w=
z<(NcmtZg@!On%gH{^+QW&`T%=U&10ZqA%qlG{Y}p6)N$Uu!>P5?F)pXqU$V&o^wxC
z(KilLI8$*{s6>*&DpW#AVHKl}lQEDzR>2s_G$UH&Dwa=7ZwQ0gIBLe;HY2*H+@W7S
zt{IH(Q#CnPF5~j4{bNE)(arFc>$rNNJQ(Lo>T$wyC9e=DEEe;ck-~COFANp_7x1?p
zQSX5Qy$g8S)t%XH<2DqA(Km{B`*M=2nPP&rNY@*Jl8$UP6sh6j*nRqvlw?zOTG&M{
z`Xj(3BUwjZ80ze#*iX+-&-<^IJ-a8nUB4cTUwvPGnX<`*+oLL(GhDbO9a^rcXZN^d
zt0%1-9o$BWnw)6JK0L13cPt6IMapCr{-<oMO~b6%K0Ge&x_WWGx{$hjz4Q9%>}^Me
zSSh);#I#`*)!a)r$hl)M=I;zf67e5~;r8q1t+v7mt+-^|+;QRM$lZM9bS8yz%=)%9
zWG#CWZpR8;9q*9v52Jp&gyl7Z_U=B6*`f@8FD{g2+*(}<?x<q!*b);>E4$C$EUo``
z^XE4^ZUe9HFZt~QnZsn9vg!QO=>sp}{O54`C7!j<E`B}PrTyXOmrsB2Uw{0}X5mh=
zEve03gz3Z@@7BM>pT2rG>5rwGv^@N=!`a0Adyw;S)E@^t>yGh4#N)j_`rp%r2N8!>
zcE>?z!>mQ1op;B=y$ukqaMS?d4jK#u*M?go;kpLtQA_dxa2MUN<fsAh)`DaO#49RN
z4vAM)bO7R&yda6ht4of=+wjt8Al`45WDUgY71J#O@3OZS0t`4A42uM;V%7x+xS^&X
z0|XpnHw^*2Iz4oiP+K746mW_fh&aWZwE`lR$z5|`#MU7_c~Mmq`T#}@l1l4|_uL4M
zF^|`ob_1CfIkF_UQ3jdHIkGcHAmnhCj3_M-a+e;~6&iA^OyVF96=x{qXsxwGLq0mR
zQ7(7f03k=G2&GDsAsey|3>l^Tks-eciDXI)l_d6r^!Rms9u5gP+Ul*;1sJm8PzF09
zgX!gn><l4|atg33Q6eDs$GCGw6duDb+GN3B$)&_&#&9!oW~ni%P&qS-rpuX8{JBlu
z9s<&w*B?uwQCi+MSw4f5hht9i!I;6G!I&SYrG|P2qsD+~)ykM*+H*2y!_}6+n5`5g
z8ng4QL}IpLtGM$9i8-YSjP^*rX!w_vhC{?w(}#0B$gDd`B<OHY8zn<nl>s_={oELS
zgo92nXwYw5z)cU7MFV4KLmUnoWx2x$8pR-vpive+jG$56{|jhW?$DrHZb+d)qeNOG
zXq2#J1nm_!a1PVkPT-C75zHc{3|@)^(4f(bOP4D(SpIa^7^s9sGA=12=8P|qM!K6B
zAa#}#bd--4jVJkNK|m*8)ewzUBWN@|o#ZRp<BfC(0(b)m4Hda0`6%_45j0xl5{nmM
zZeX+w4$!fB(fUG)5(`=sLJ9|A#wY!%<DfWjR-+HpU8n`4sVAcXMl6A%Q5OOw_mNW@
zY6+r4<$~II12;o(LdD4_rDu6fK-68WXwRibqCTgZrfAgGafjiCjH$t%#$M@xbU_Z(
zUAigl#*08b&DR4+Z86%g2JC*5rx?m0jdraKMUM|9DLK7Z8D3Ehh21Z;#@K>pz)q`1
zENvT%?&K4;p-Pmo%aFbSVRt2SDViVx2s_Ci0(Kni(Wd<X*t6V9h8qjz;kbj*L0LUF
zaQA!E;AC}X`5q2+nBxi~n?1kIMqx~p`6x*OI^uETD45pT`N;G33dZ-IU#_}D2`uxs
z4REvd(IK=*;3tm|Y{Zj%M6D8QWpNLoU^^Yg!#TW_Af-)C@4NycABFT7zWCx&A;NSk
zUXjDJ!i;v;uPDWv82vDdt8O|JZNA7Gy-xCh$h&CyY(@ddm-)I6aywn2?2t2{53%Rq
zaRH%cda)aNAoOHDdt2Jzp?9i<OTjG=dOuB^H-)Z+-2tJWH$1?pZ!WJ)DU9cJjSk~_
zEw37SVT!b?cVY|_?<;@J1|5R4t8g}<SY6L{7=yaX8<f*8po>2VLqV?JE0d$>ne}DX
z3ur_2>E@l0hiP}3J-pL`qbpGhh!A^rQT6I|4Nw3wpA1f!3BWtD;;(SG%SZ~rGoBBx
z(pKBxS{8<vujKyacljHvY!XbviUHmTc-qyQYg6Jd6ozO25rvkPkAS#aT@e*8>z7QX
zMCjVvCaL27`fVbJDYbN!BxIPu!U%cJd(!qj=P0-w564e;WDdr3NV;TlJ?-Da+Y29b
z$V+0ivOEcB4k?=XV>)nwH-RB0XE_}gk3kQ#>5Dym$<XShL(@l;IKwoK;b=@>A4Brk
zKN|eHe?Ez?u7Mq-7}+63xJxk%De>4bq$&3N)q$O$C2bAK+<RQ&+&v9W+Q7140TclK
znQ!1=u?dh3-Wx!Sj*~u~n<u(VcFD?jGDtfUNCoirIX+~?B{Azz`tY~6JZuGed&eP)
zW@d^mkzKO#_6$<!aD2mbmrAZeb@vA15GK?_-Q}^%Rvs-gY_<5dxq(q`nr&3TuOb6&
z>pMyi4udm97wN2UV|k3sI~A0Mq9QN$sCY6l3zEQPYhJ7xJ0@0AQpr`Q?p_l##R!?G
zyF7N;$`@XFVL7V{rm0tbML|f;g*Sf<fLPYg@Bz^<Mn~wuuw1ALLRl`_t8F!b7{<mX
zLvj?#vcWsFJcvP>Ct{u1>Ca|nWJ7Wk>auaWKp0IhnuS5}`^KIf(&Lbwk!W?P_14#1
zvrY`@_`CIgI%~pSe6Tfndxuln;^4>@w@oi&p@KN4Qr9odP&7aYoo@TxSV7z3ih~zB
z&Ke-f?N?n0LMKuOL}f!x7f4+*N*B|nHKT)|)ThveAe8JnAU-ZyHPF<QZCYuz>y{FZ
z)y*I#2o!hwI84}g90XR|Dr14?kS-2_&CYUi7$j=<QdQMuzxSAmaVm-qU72dYqC}kP
zLg2GWB0m}xBo44yL2|*@a^LLy`n7nuX@v<*0nM`r$y<M8=XF7>9ksYV^YhvkR~!7B
zo!15N&dzH^SlfAR5M?{B732duua$}0d2Iw6JFgXCZRfQ?RN8r6G}U%qKaJoB_2ZNr
zp$Np?hFToag=y1g%Y}VWm^%hxAHR68_c(PU0-Qg2N>Pt}o_!&?^j}-Mb)Z{zaa3Dr
zjLPl%!f|@jbjsJ;th_h$t*&%8&1je=-E;n<I=+>jXF2@};4bC73>Ucyley2m^p=p_
zS|PjJbC7yPJ`)6KRd3W)70p-hSDUbQQ@FLUxLcdTVREoFF4z(dUv4*Tzu{@+vLVEJ
z&LP|@zc|m3hsbYZR^fXWS7^>|VbV!Y8<JM!dYe{Ab9b0VY0@6~9|q7#Gvb8F3@tsM
zJr_d!9`*PeO)AVg0(Zh+e3ibT{%(*)5elf)_KOSiItM*|m1e&tH<tf8>lDQ^Z@96<
zailBG^W1%ofu%B+W`Kr(3!^)CZ~u;@7}x-j#rdQm;N_X7N!Y?1)D-Z_*{MnJb@Nt}
z;@He+O`$H$bxpz+X2GU_e>^`nB!ZfmvvCpZ%k^pup=vzp?(a|Vl!Q<*#xx}l)uT_P
z2_Q|oh3tFx+0*Ee@Gk<3qPE)&nX7@cT4)Ia3K*H?j@a>4akwV#L@23Y{Ris5A6wZw
z-UoQv-B?|F+Byt=&OfSSCxJ_#bfs%K4A|D~#*Z5Wxa6z0L*d`gaop0iG{BaYbT`J>
zmfly9oJgX>UVnKdJ=#}&)sdbYd>yxbvhQDd6w7r?Ql{p9%7o<ctgqS)N(OqR!6oGr
zh>Z-t=btX&^1Rn=QG`;F1T<oSNF2A9AL(}Ftg%>$%>Nu*IQj(BdIPEi<LW>9ckr-V
z`8KthrB(^_E=v@+X5PyQv<XEgX%+`6V+tndWbin*+l?8-Ab22=^Qo8(m|&6Jbyc!}
z*zF`y#Jbf|)5^}S@h$s*;koD3Wnq{EcnJai27yH<Qbmf4^zaVY?oG0S32rAVi;lIc
zuy#&$*jBNl*63siDiiT|okG>>2~$cmTYBI(nW|j<D*^L%Fy#9j1PlaBc)<3vXZzj5
zTBSFKFa^<Ea>*5qGKH`SaY>5}8y&9!G(tWF#UnsoCkaCc)TLdJt<pCK8Ko?~MYP*S
zgw~y=^D$`R<I~*D@|`FO2!Jm^AT)$DWC4sIoYpEN|CpgudxrR^3~LvI{yCGi4ZlOk
zIdvw7k43I_@z&JDt}>-lwOU5pVf37O)5FK3_nvXLEG6f`N~2A%8ziw}TnjQOlYr-C
z6;(Q=r#wo-;;chjk9&Ex-_twed}IHF(fhY-a{fV^@CUPLue)UI*+GXeF_SI`k%&DH
zH<egZQ|TFj>s*4ItsAVl82h25uBinPG3^jK6>Jvi$?#TJg<2gp9hft_il>n(F9%-*
zXsU!3Pky-FTSe=mnSb%Vu`mOJ-xw!jBeW6U3%|7P-QE@`>^&Le=e}&p<3EG*3pnFn
z%HuRsJKn#>Rivedf`@B(T;=k;T)ZIDzMvb>a$QD^Rk-zW8-)do`y@Ohww<&sE~J#E
zf-iM=V_2y@x=JNMkC1WfNC{w3SF?2~@^qHnl05~2sYG;F3KhWm32OIqy}r{MmD1nZ
zP~7y$J`U-}in{SoNmodIN?(t!{_;oB7xl~gqJC*#)c?IN`k?UXoql<7je(w76`omf
zs<CBfBh{zB1xfA5KI^>to6hU;$XetV@8l!%dDh!KI-l}eQU_koy2o$C%w~PNK7!8T
zo{S)#q}}#IvUn|hx~HgS<xwMF2rOEs?H@nyFQU;`N`gcHnKL;j=lPJ&GzxqCKJSa*
zlp^>On6fNX{;B=7|E+V-0j9W5fy(l;Ejib-&(y(iFYI!IFp0tKn9<BF1gQ)n&sE)1
zxXEVu%&PaQQy)ZWQ%9`gEbQJnaAy$?03c5Rwx`1gbuy`v$T)<g0E@SW@h4oSAzS|f
z2qVtS>B9lb5qR3QoLzUKNDzk4{-aUBkIQ^HF+0i0X3XyF+;E7ZAu1rWCfQ%Vf>CLq
zntDsQ$#`Z0ukS;3b#-+!&eOyC{y|+O?d0)!c=6l)=dXd&N<IV2SKi`5T{azSu=&(z
z#a=XbN1o#<6(@f<>2*oVF<ojqy`TOxaMddIy0JI%{IwT<U1?QZ*?s!@{qEeKc*<XR
z*@eH-tE~QK*X_-Qoq6Ke%T=hno(dfm&b%ObdQjwz8;yP#dz)`G*jeii!(n#W;Rcu2
z&gn{4?Fyae#2dz*SF1>Ou!!chTj>pB*H=s#8c5{Ei62Zi_pqEV{+rKj$4>vjvmdjc
z+2_i8b)(o1)b3^tJH6Y@hw|d!Dt48(z0zd2#KTrJ`R4FEbevwQdhd?nFf-C4jhOG5
z_tJ41-_pDORIc(zr`Tvvnysl9*kkWyHO;=Y>ttWT?gtm~bbH0@;`;L6-|u&epU;jp
z+6>6nWTEWq^pf<`PM`q^91U$ir)km|&BMTB8`=K4eU<&pKC?uMW?DHj{Q$Dlg6wdx
z(XLvUt9DLnAJ=SS7G{ivkhW%F);c-0{NQ4GvoUX6khDD;vuEc7ho6xLnQLR_*eGdt
z9ZZqwj@DzR^lkRd9$B+0sW<pZJ)0@6!XQy6rF0hxid<~~1j7rM2zMemcTA-b6a-an
z=!ZWNI>IyH7|ehicC@cC=F8gq^3-cMhKzYaW3t@mVaA#}H8}B2Fk3u=w67^9$MGc;
zD?qg1Jn;(Mzb8u(K19qCr3W8Os_9B2SYfc<ARj$>PIv>$hSGHt)6@*i-)3;Mry1m_
zEhx$7U^&90Mmw6LnLD+#ErIUA%)NlDwS~p_0v|(Za)X=%XtL%&qb&t^e!~lf5FbJY
zZnT*Y3%H{qm~AJ*)10hAh#)_mOb8q}ODx=~k<o6Jf~O-`!^V)K3TU*OSmY*Njj+-n
z5j-E^YBj-ALDn#Z{3wwh12)=^5==jtp^LfiCXlNYo)JvwXiqDA27;FhYrzau$&I$O
z#>4J8@I$QhdB<lU(Q@P+&)Cli_IN(<STpgWy?o+{l=ec(G)>LhrnlsG??;QM_vpsT
zcjq_D&6PU=n=ioX-cvdqK!?{@r<8ht61&+g5i3bKyX{gWrkj_1LzOF2%EuKpG&iCA
zeIC9*Hm-r^!d;V6cCN9<lG=&GRRsCDfssA93n-g4`+Q_=*<k6zCLUe&3YqwhO<@~}
zCoe!r-2%bITuM{OZn4a79x8O^zlER7_Mia(ZGg@D6{Cc<at9_bQ(J&~DtGWxF^opq
z%Ac@|VZ6{XKlsFY;<@VwRx4EvOxn#o49yVAw9EsL0~p;63fm)JrmE>cNj#xW%$)#A
zW{As}mgtns-(WBs*Ugm3FLVN^Ud&Qbzrl27T4Pcg{LSjJQpvPq-Q@3BYc+*zySn)T
zJQx1?3<?{zaeX-V2u+*do^?gdPv^5SQZO^meo)}B&D~0Hw5bX9gmQ-tfhRNtn_GJo
zcz3e-DwTpa3YtE+uXm7wH~X95W@Xi5qT>PFtZeO-(9T_R26paPK|vdvOXWnnA<YH2
zeaQ<BS}#B*!HP3TR8j(W`&h9-JBpAF73;(k<tvsbiAsD0RYk0`L6p=QkYb(Ip@cs8
zLY5@z{sYTZNeHwWpop=lPl>d^m5QO+PD!xq)VzSHJZ<sIQ+;(Mt52;<WQ6eQ1cH@y
zEs~Oqd#jI>j?6lN(n4Bqyy=@#;s;x<g<uLc3wR}?v}-5~I%M*!+A^SE0h3JiI*1ZM
za%E*HPl(tR@1SK5W<cDuGYW$ZJZ1Ic@atu_{rJ7HCY!&^sUXM059?D?fZ6;2J8Bik
zBFlaQQhvoI4)r+ZK=4*=tWX*OX2Z0xLP<oJglXG@l0b%F<+cYUqA(w(O#(uqecl1M
z-=oyVUmJVlZa)E=Mqe8oeTR)x+34$>7gV9OrvdBmfobX81gwL<qIhTs%b0b~%j~OV
zsgdfkN#z=zCQM!MrJr2!E`!uNb6_3SG8(NOo7UmLi3wH@gq7?5%V1qpz3sj)L=a+n
zJ+2YEWDA~R>#FKi{N0)waHY2~G*j0#$Q^YUG`*V|^t3jErq-_$W-&s(bLCD6klPB8
z?QjL=>D|ghvobiRN;c|Sk*hkJ@~ZHV?pRW%ATtVBP+HCY6NC2Hi#Nm?jqB{sK@hF<
zQN_)LZAWj&$n3c_6mDsxYL;B~e4#C6O;d)8F3XSia%H$)YFKC%bHNMNGW%*Zm~g#-
zW$xj4jf~Ui%+*NlEQUsE#9xw^G-pi2Mqo{n>%qy8jn9j07a1C^F(23QL0%K9F}fzm
zpQ@43^6Ch%ZNo+*=JAOYk0hIzc|a3e>n+H5P3qy5F6}g46F#r<qZ}q?6O7rR<s)M@
zts&WG(~w4N3Y_C9Il*D#H3f3mQFBQ~?6r<X=was8xV`eZl^)?YfqTUQ?a(5XVe@M!
z!V0Cb&o9Eb@#O<mh2G|saeAv^KxT~>4b&Ul=HE5AOsw9Jg0*ZDQHE?*LshYPlp3%Z
z7FoL%s)^PNpjEy(DZ@4A;5t<R=wa{Mf+kpV09M)Vs?5ov0@ZFO0SK<II!6nx1qN*2
z8Z-f0h{oc{6@E|)v9!w3hy~!9NM9M7xCKa{l^lPPVGGZW?NID!;6i?=Y3*7QvJmQ1
zl$@@TF^g&mwY1LBh($oC73VY)w+P@?a#T!4ZFzQT`?5#FwggK4lF7})Z7CU|Cug>p
z3GP%4?n=Bc$(fMF2(psbj%9X|3S?RX2H9fJzM&R&iDb00)=LS1ka~kdhEdgovG^@D
zlnN_(ckNUYLxq&QrLS_x2(D@(c>EnTek*`qZr{tqZw2rp-szVCT-OA!@Fg{ZYaksK
zN--11HPAFVIut15_m1#8Rft^}7fLY`vv;5oq94|jIr*sf{6cZ7|AUXNP>q?ueb!;*
zxMtFvd<w=5YYzOc4l8;kvo-QRI(jIA*ysVE7I@mVUE6lrIuKpwk7_Of9=Rr@Bu!J&
zHhu9jAixROL^cWJ>kqaewm=$d3;fcRrnTgmy=OExf&F;@es>?XgR9`-Y1sVd{Q23p
z%fZ&Gu+56!hpm!b>F$2A%ABnh&Y0Ow81mphJ9;koX5WX(hifZ`2d+2UEmBJsDOICi
zG5f;}=l(jhnKNVD9`W6>`vrU23tru^<%sdR8`z$+WRv{@is#EKCrlsTEl{`PCHJdX
z-*(Hay>ubvJ6H|Q-qtQ>fgLiwbUi2ZdHl%V=$T4yTX!0-!`dRSt8Z&RWR1|bL;sa|
z!6PA>^{wZ!#pJiMShHB^^`SqEpGu!^b?oyuDp}XeW859zu^k4JCZDaB%nJ+MGsa$H
z2jv3w6?eTbLB3+wqUBotCV7B*Dam%pUNLdioUb0()lc?#ZFXAE|2}S)zn<*M*ypS^
z_Puw;!%C0)%lLt6-<z;aw=&)RBD05-i!<g`#|z(MF%ugJ6U$A$RP2`g=W09tGyYj;
zhY1_4XPP^dr^~R~i5`f4%31vclA2wQAZa^`#W|Q*y56LoP+-Wnv3QQ1xRvTd{Ac|0
zVM&Y7P>H?mpHEECiWcqpeBk>lm7d1SRb#hJ=sJt;+iropeNJD!5x@F+wP3j~U(#MQ
z*8gz3%3rgruaNjnuera5wNcgI<SN>vKSg(_fnvngdC5&O=C$8P=~?wH&T8n36`R0-
zg{V*sJ+EXWl+saIEx-;-d*f~`{P8O)UI!$`mn9;bbRlBw&k~3TJ$*3*+ef6hhL}K0
zp+^1&1mwwc62Fd!(uV-CstKEiYd-R)ZZL<Sxdo{FEs-d2rZ76+A#`*_QsXoLar!fN
zal^R>H+hbNVsw)s0#G*W#<sa&1o<Mwjh24gWyPU&0{z+H*9bj)T=?*rfNsqs6q|w^
zyK~0ezvL#T4yQ_nA5t$fhouO|b5x2s<YP!F)Q;r^Fh?n!_2pTBO53f$JaiKe<nV(N
z!oaLRK^`4%20Jhg08@^4VN<qK*cjd^M32lzwqg$KUEc9+!Zn8putB%^74r2syyP|#
z7c+21Yyr8LPte~F@wn_0b1;+)N(WP_W5J&l8_U35x?zCms{|a&@@UNLTrQ2UNKivQ
zwJw2U2h4XB6e$C>0-EEh4fNtPgH`k1TBGa+t}dY(iGms7%7`D;O{El)R`ex3PS?$Z
zt1OU;poXhZ2v$XCcPffiaVI+%?J0L=5uR4LAN{?z|7*rA6}wR-SUFy1CtU{^pL;Dg
z&E?I|y2=qQ2}uodtSgXrPv=Tf({5~uNy*NOD2ur@eIdkz%}j*478szN)G@s@Id`^s
zda1*Wi{LE9G_++nj&3O_8lV(u3D8W6W)8e@Zl>Q5`^tR;yK6!{v78#WGK^_LeX-n1
zgDe_s>SKO<icp|8LBEtKUYMcYx-9BxHY&j0(hrvs6KMv4J3}+GmI1k3m|QK0T=^v?
z8M|8A>=H^06ti0B>7C75&A8RREVqt|5CXy45cGK#uf)D>f;~}~lVRURM_}@hZ==X(
zt1o8AcP@;4=CuUaJAhv)rGDiHT2$^p^vbn)CBHflzjVu`GM06;S$4=@DT;N#V=FUN
zU`DWRF$9asfdaw0Ccvu=UI}~`cPwP_S_XMn8}c-gr$Fz5pl4p#4D?<RpeM(i0D4c~
zt0YOu?%&3sN9jSt(zJ9Xy?S^+Otmd!?COEZ=<vLJ`ueh5IJ}a;gKOOQDWg=PbB!B6
z+3=CUbFB|gw#;e<&dr4lRhS48Ai6<K^}~U?);D-;Nf?ik1vl8)uh)^2QQ-!O2ao3?
z%m~phAj^zP!2%ijxV=(#q(rKZA*IpLl)=>3hbe6_n89;fK<OtcM+xZMqBVeQ`B>Xn
zZ?SV#%ZijlxHTdI)pM2+;d=qb6W6l^c)nwb%O|x`Yu^pDMz_#qS{oD*EGDCTg5Cz;
z31l+WIxxb9;F%Je0fbH7Sbz+dy8_r8&msz_+!<($<d{-pcNm+shMQ%2yDva*@pz@6
zw|jjyi`Q_pxqOcoY1Ir<qH>Ri)Z`?%43Qr?h@5jQ|G-GBLoKDke&87*HFGZ0*8}P)
zIdf1?`GALj6z)oOJ>dKz2is-(`ibWq1SCpPei|Id^hi4*jH*YPHh`!S)T2J7j;^R_
zGwKm%6os@BhDV%H<OseDghzc4PO9Y;48IIcTarRbE&al^MBX8gY3Ua@l5i*~P#PM-
zL=Dg~#SkYdMIa>vL(r1bG>%fx6aMxTu*$c8!aA!5he5siZy>Ra@0jl1Dp+%LiuyO`
zr}J;N$jJX2)lZPi{XdvJ^$xI7YyL$We{DZ1m%z7t{(_z@SLsS({>8MU)uDOTH&sc4
zfm-<=7|ZnxE^__DH1bu-qu!eg*(>0+|90ShxYq+VxaoJBwq>ojKem@q-?vnarznNg
zN>iGvG;e6tNkO!VgI7m$bEdh70}TJ2GtOG*KG|tjN1I*QK_QA;4mys>&YH0p6;Kd}
zX(F(8gc;#i|BF)8NMBLH#{-z@X<S4hFo}!>O^vlRMa=9|Y8!+7_DpnVrnyNGZM;KH
zA?R+Re^ALT98g-D0Nt+BPXIAf94o>!qag!9X$<sWESF&n963H$Ptzjw6s2Q=o~BUX
zoT=LBMa)zEdA-z`Q7BB|8Q`yhBQqFgMR>?0?Gu2Q;mLa@ZqY+y2Fzt2Sv!Tv48$Ze
z5@d$Sya3ZU9iNy(=?!HX%DiT7P+p{`zh$t`v9whO@;M55I$B}|xm&<UQ_B}Wlg!1-
zER+c<QFjfxVtKQ<GTdGCTGifFQoy@F#31Rpn1TONguO=%6aoGhgF-E7j7kE$82EZ>
zj8X>v3l;$FdzBRQFQCn5N|0u-zZNig6V-17)L#wyh&jfn#QoI(cWNe2hWjgK^iMkV
z=T|gM5Q?~F;4caRKM<qeg@MN>3{eUE!r+{zC%k0PFTn6FgA#@Q0=*)W?OvIIzr1kJ
zofTIgz|w#KgheU|u*5AN9)elw!+$#2M-gBNI{vfId#{Mv%Av_2;O`ln`J`bg8Q|f=
zW5oQB41W*v{9h9!6!acy``LiV41B+UV6S&F%jM&SZ!|jO8yG${+9Lzrhp*TlrXMNj
zeKgV+qari#S4BAfeHlZ*e}zxlsm)P|{t6!)L+>iCz_FEVK1RX60-b*E+-U!;0K1Q`
zQVO`g8Q48xk4og<Opp(tNdFD<_s=?`18+e0iT>;y9mx4*A>Wsf1-v;vCunkqkYfS9
z&ZLVBat=;k9dZ>4at>U6Bm2ubhzA82`RSJn1SX&da8Mr@)ba90ZDgni80ufGO$zk@
zbnj;)9~Mx+9WXJS53y)o!wQwyhj?7qLuV~R{X6Mjw^Aw0L!^vz^6747u&;}N{iuhz
zHYnlc*r5{lwSlA0`PvK_^lQ*OGgmduaC$GG+;$RlzvIDI&t#7E9XC$$t2|@~y@PRg
zmT;7jzJp^1>1}E=;6DmDk>ihd5s?2d@XWN?D8c`Lz|Z-L6&dm$K)NlCyi&M-0M1!<
zG1m<JO(E!qWATISHu?jx<b;W07IuTX70TR|%-Y~?1^#UN4Oq)b?`2Zt+MpHOH03qp
z)%L=5oTCYBfn8e&e%j!b*l+RjE%E(BGUT@)@@bcaLVk-@@x;K$4E@gnyh=PgE8zZ#
ze!K}aE~RiSpSWu=`XY!=1A1Y7;ZLwTpi?9K#6LVQy?1Xyt>^qNQq*4Bsvdr42jR}&
zEn8Ri<u|GAba1lG{~vqgjN7sUpcZ)A-JNZ7+C~t^r{Bl|iHDcQmRolk*G=p+%^Qsj
zXIlwKL^_P!Pv4UOgM_$SNxOHKPG&qj1pYrQ|65klt_VI}-@M%Li)@hH-rt>n4gdb@
zI_PI_v2(Uu#Z$ftIh*wywpjAFVE;%EahBfj8$NLZcNX%{yNcL+=8L<(1faL{YTq(g
zthnrLzhr|z_14$o<%7UEyM2G8c*jxTE<^t8IJe^OC-$^pG2cGn@#H&;2N%gaiF^L_
z4d48`$iAOnPX772{(bT3K5(Z=%G?}sz|%0|*>IZ7=WNQI-c_0`uEi4}PtuLLdmBdS
z<UW`<-vZwsKZ^fQY~S|1C(a+iD4c~$@le)Zgv<ViaJhM<m%lRGz4Yed=H<f%KIB|P
zeA53KjL*f*=wZc~*z7RPSg>F`%z`uD7yoe=sG)U%8u+iA#k0By4cNg`<Lj6wr7-*t
zwyW#Meyjf2x35wM$2|^?02f=f@UG(X^lAIZCMw=VvRH(Ef0-=L#Dh9?#5V1fzGRo6
zPkb0S?rj>qi2M0k{IE?V<HJO<eWWA^{IEySc7cy}E8UI7hnu60@lY$Vu^F{~EsZN{
z$tL8{6N_0IO*5zW>*m&Nn1&1TNc%SU*XhlY)x(?xA|0`rGrlbD`T3n4`#5J09>VE&
zRD2Xqo5M%-xv|Z__kR0LnF2Ru^PRXw?D04E?rq8NSF6ozl}yr>ZafK7M)b8}Js?I5
z`yvbUMGh#@_5Mta$Bqb$EM}Hij*bm0a--r4-{SBQ0%F9l*l}{sZdfLs{~&ghY>cA@
zNR(Jo?m=0OhZeu#=P-@Jm|Gh`IzW^dve%_pD#fS#Ih?PoECe+`qQ$c3Y<C1i-g!=D
zqV!rF?cLZER&Bg!5q5p?$J%%j(V;|-@-Ud?cxdq(-e>GCWz5<L(gC8xP{;Ajp9B*x
zp58WxTm5aLi4-HM`@?$9AJHS@(SlvFM;oK6ixfAi#3u@VB2?VC7Kcj<(n+$4%e!s;
z^V!UzxDulx$Mx@Lma^NF&7!IJ&vrYO92O<E^KG^o?b4QoW+i8=MDhtpIVvbMpEUk?
zNGnnO24vm$#~2H%-KdqgzCcf%ItQmt4IEqS#Hn$gv=iq~_W7HtuW*?4)-G$~>#TiG
z!rJ)SGsJF5d&}CYHEMc0u-0v>?SS=m_Ktfy-Et$0TMm8x2HEqb;d|51O|0~ipMW7&
z8g9DSlQhT!K9AxjTEU*P>HHNR-Xe;Nw)u6$pJ_$=F<a9rc*~;u8AGGeNknZzkQ|;9
z6>>y&l&hlILoS2mky7iAd(bh3>kX9*k|$2fP<Y{_8jc4}zCGz@Pm&q{N|X+uOb9YT
zLLU&MfpQBQxgQ{Mh^COsQ8`1Zif0e043<ag+w(|$(nJ!;D=<k4zkrm<N?wpUj$=Vm
zXs)dsN}=^DNDRxV3NaFo$~EcSDc9}KSxhg2V}7|valC?DMbqLMMOjdoP=nHTTpm?v
zg>S4Crj1HH%Jhj1AcvXSq;h1*O{Pkl-ek&}OoNseYCFGa9oj$=%cUSm5~o6xkvs#D
za`Uii(n9s9tc{-DuFcgko!dm6%)|{K5dGXh71eJ0DFb?QskAVybXv>Z`9;&Vks0-*
zBwbM;l|`yd<r;V^?xcpE^@X`7Qt5A?UCAIZtfj0F!(Yn^L6XHR*F>_sLS&gN$wjb^
zB*;~~N3nY8t$>y#<TCow1m*z?h0;9CIHFQ%P>nwM0pu{#pHz-4AIVhd>I;=JVlI@)
zpsnrt<~_I4yyu)nF;4>BqNod_kto*k0E*&Q2|!_z)d|x^D#n3gILi_yhE+uX)$;Eu
zeQHQYtzc@J)7&76GnVQLCT8gbRm3ZyfQpEv6ijhkm<Cg_c9NU6jBBck`h^A3rTglD
z$YUmSh#qbxf+!*;2g&3-sf!!yBDuJME`^KX@;EMr>tVTAHZP;eQBYxYOR0rvJ*Cvg
zHkDEksorg%Xu!uL=@_7jR<Frt!`#E!Fsd~R6-HmPYGL#}@FwE42}7xmvnSp}5II9B
z1<^B<Qqh~vS*TeOJt-<BNs?mSMO`!%6>w?%6a|nb&J$_^^o6UIByhD_6w}xBSJt8Y
zzJ)7dxfr5IVqSnSl4k)*XjTPi9XmAp4RqlEZ}a<7e-&>ztU0E(d#3gb5MM3lOgz~}
z^5aR#kF}ECW<6*U+bjhPvFgE{vfz7KL)$o*9>(^a*m0rTz(#_lE&Q^%wuMY@v`mGk
zMIJi&Lt~{24h)X319FkMS8t<m{QYh?&jRnqD&cILuaf-#Wuv>~uDG#(X#1OFXmpi%
zck2*KW4MFLZ;M!nW>w(I1FF^`)=wnbhglhdvJ<d0U}7I)?Tmq)n6fr?JBjxVxc2cK
z^&#1ZSbtJ@P;>b)v!If*G}Z-Geh6q#y^feQur+)3_Qke-?+!7jnFFk~kLZTwl6P1a
zyQ9m+^{0#FSXhKd;oSexV?W+&@Qxsr>eeJpsahN!6|yENOogLdo|>eouSAU!Rf<mI
zET#I=C{1lCX`Dz_H5!N87l=ktDkBrdSxR-OQJVS^bXZ%0YGtbJGcy?~NfB%Z)^SIM
z9b9#F`0%)7)X!B@avP0UeRbV2RDHb#_2Ytjm+WEnl;6UlXje_+qckq1H6a)YM5`hi
zAEi?TO@Py`d?o^EQ#%u&bSa#Pa1g3yBC^IMGXY1tdYK5MO|eXX(ydaa0_svG<1=-y
zktvy47s!-Qt*c{FsP?5X0ak~)_yo;}^a~#F+a$wjGM}?4cY676guVY9NztfOH2fl?
zuB-xU=zdh}u@d_u#&>`<%qC-f4z$QHf0NzM51!1}9e=NDk2PtBbx;+N`~*>Vz$1GS
zb6!GIfP3(JPY1jxsZ{xKccoMp!!}T&rY36IhBX-mv2TM{Tdp(T1_v8rNA<OtZNPVX
z%k8+bVhx<J*Ko>%Ec%x@LqEU$N!;9V7ZZJG#5m5^NsQ}vjpPI_Z$ke&`JtWblhFNS
znR$^|eXrhi{`Z@|xwoeS!L@AUKf>{*f|q$0#oyxgzQ3vy2&89U6OE!h-z0^pZ~&U_
zHPJNauh&HcX{Fc6qVAg4MFVe;*Gbg47hWfvqU~K5N~O3l&Z6$N*G1E$v0f`v?dckm
zp=#RNuN~{Sn6!fnI9;Hh3pz-kiwrz7&=jcAJj38{I(PJ5RqyU23|frv(Drq<g?zi3
zw~W?)GM1LhnvlI$=N9rE)$2Ag?kjj(>2@`}jeONA-&V#Gb-%5+#h!qTaEJA{jeIAr
zZ8AcceZ{4$zetHy;jFLXtp=^RDvG6~l}f+N+F|CEfV5ou+ZffOy#f4iPJw3vyc{e8
z&N^V6f^G|@9)B=KC!L6}i^`U8Dd#4P(Sb)P%n|D87;4X^8n`e=2c5w%OW1HM!z`?H
zQo|gYo_@9VY^r$<b98!p=sGY$r#_5fHX8)708?8ZVn<G_CT?<0*aV3=Qs7Vt2H+DA
za8v*q>*@Ul#2n{s{|57B3=QXQJVCXH(8x0Ag<=n=T1*wtaI_vCAi<%Y0qMp>WgxEg
zgKODE`~vN?bPoDN_3prRLex_~cS6*gaJ!%ysIYKwwG~=x<IAaK9#|V+WG29Em`7P#
zwIGdd1lBTbxe>4C7jKgxiC6PWRvWIlL7G>)mZyGnv_;tj{f%}h!uk_&Xj)x<hm5Av
zg>R^+x?k0Wo~-SqU1Vhc(z$$hbVt14E?<6=`@kO;^1(y$ii9AywiX2Nv>!Q20~71T
zQ94(N^B<Q%^<n-!rUiJ~&6#U+qA(POXa7+VgZL4=Y~ArvZ>`%enFv8s1F<A{`S%N~
zqOF(R?K;PdGsr|d&qF2zUV;bRTKZW{x~i*c(vnZ(k@HGk`YmkAZDey6P{l%8S&~??
zXx3G(jqUcXHT#oGFv@<U=qcak`wtIk^EW*B$I{lP()PL1X=_$_HIXHJq4bPKG-jUM
zmu~$&ZsFA3pRem5;c$%0o`|U>mWqkU>g8W4u!4=UE0W0HYsf|}QavNGlQ3~sy4>8_
zq`DYYxWwo^5sFroz)CD=B>#@SJ8IUPm~W)Fu+Sq$gmdAcsn}58bj9ZU*_P>M8J8RB
zrjg3J2-_nu%E1Q(*XZLL`(}r*HT&MC?Z;Nb!G^Jng@;4p#iE2-K8@5xozs)Jx!k#)
zDygmMOxcxQnqw#t`<cXy_{_V%jmep^+Dr{qe1DmIG#jWx)m-?aB%X?Z$+;$8s7<Dn
z-(LphB}%PG8<k$Hi;7v_YSS%dCsEqC3}~Q>OW8@3&_>23(M%hex=<x;WIAF+wUHUp
zkm(|WoOIXI#-=91kZ5ERNo}S*t0uUJw7I0Lp(2WDGjgnPBuSvnHD0OHfFxXl!Ba#?
z!+4p~nASK+B-P35G^gHMZ6D~13=iov82r}^`3CFr=UJ%`s^YU{@>dWyPU^>RH{8lC
z1@c!bCpi;<mySi%<buGQ;Vuj{-XUqd7?5T<z7L6W#Rd{rWJefW5f5Q-MFNDu4U;J#
z?kH2j@Y1AaLh=q_42E~eTOhpSNCgC369#$xq5P%~3oM>`pnyg60|9<`j)EZ`2RInw
zaYh3nevDxtNV}g<nY98kt3%3zXTlShzP*%>E@N-Lw)rW`USHVc_~PQ#7udUnx9i9R
zUs-(l0<>7Kxq$rz0a+rl<{9$@c-pm=TW{MS6o9pV6kiiRCTX-~>Y{FKwXH9R*vAeE
z1`0T7|NQ_biyEahWZHuf*ylSp9}b`&tNCiT(sPxoyT^y=6aM*qi4yh7vPSYwM3KN!
z0dkAcEJL5r5E1vpTH+E^5MoAPo=AGKvIXr4Wj#~@B`wiV9jV<nHA0uTeBISG$dxvN
z`Mi^g%V?ze78ueJAefCv!?*;*I17j4-mo&3aT`h}!0S*ZU3aYrhSZi^0SU}Pp$uA~
zU&AS;WjN&uD3~IZu@+2;j+MbwUYfGd!BsV;W+O;UL%9hhHE7Zf7}Oi%Rkd_v6g{}r
zjCZWE(qvCQ-@@&e<zi|+3du{<;!^TBy*K5sNE*<yG5U`N80=351|m<bdb<H<?u})y
z0#gIVSCQEo8p5tZ3&I#kboAM?-w(;Y>GYn$eUBd!KI`s7;^%$+UHL<TqLIQaAXRb!
zgR&DNWV)^?7{u#=#2lHTq}(`k3A%(O0_(Ajfv_eTnT2ig-Ju6~AhAWvMn>==q%UL_
zNP=+}SP8yV+ICbEWLeS*>Wk$^54l7Vvj&1d-3bbTIVoIt))d-cS|j@xJ=u7C3UW{M
z22s;g%zLy0>1#i6j+<v=Lv~%qPWl)^voN;0*8Ig&e9}8kD^K~NCO|9etS|64KfZwV
zsN_rq0jJZ`69~zv0~94?5a25D10b(Jk{z5jbA>fV9V46tP?4hs>-`KX90jcFFNeQA
zJ|W__Cxo?Nf$j8W_WNo7wY`5tX=(1N2^T7@Bp2z89qg=EuVUZ3!aJHX(<B*Wb2qyA
zL2>$zij%Sx#T}NKV7hpY;rR~;mz^E1odNa{c-pmG+jio(5?$wyVr+AHgj{CmlV;L{
z&UE*SmH~yh<6CTzg#P-GWgxb3Nma&q$x4W|x3}t|Dp`ijXP2|rA2V^8^|QP0i}5e-
z-)~c9XS>Me?;`))fAjyk<+p!NugA=?k~Chi&|9T(&z-J$BrlmbY^Z*{eix&}OEb>A
zXm>H`v;VRA?DcCCxU=?zCx`Y}|HkLRI<o^F5iWOp!BfKZLqB6YOvH{fMsl!lE8sEx
zrN8mj9LP}<e>07QHB5QN(^t;KTg=w-{~{v+*b#pt4H$`-Wg_*X&0$!hyi9~*kef$d
zsEp=Lf_U|8^$L@{`Qpjnn;^3o0Fuv931q-rHCNIv6iDQSeBBnqE-<!H8O27USQig|
z<}dxg7rVp#tWr<#vycYTak4l(4`d$|$#%Ji0Z@99?*pUHoW(BTRxdYAycH}7wtH8~
zJQPBH7jrJQY1Ao@tK{qf)>r^HAG%0AU;MND%~#^!c*}Sjt+Vsd8pO3mt0;WLqS!gg
zG)w}8)ObfNu`2iDBQZuf#GRM&s51Ny<iaxDg&zPCV#JhNR|2ai<H3)fcq*?hViZ72
zJn?iuvz%2NWrBI>W*f?d0zGb^#>p9oMA=UeL*1ABFWuGUd}v)1zL<Z8ACv#ZWDfNL
z?3ke%B9~9>fRP%&-;-joQwz0ovm1J&=fxn%nESGg1<zLi5kK=Nn}e>Qa*0|thKqQi
zF8&xcxnk$yk0#R7ZlZCz`79FUjKx~<sT6|;FZI3s8v7X}xlNsW`2)ppI@iTGnY8kY
z7b)j|^C01A!S+19n*99r_9eXk&Sco7++KyrNTvbdd%^WfkH6@kcM4kh$`ruMWAc@!
z!nsM~P+hJP%{WcH-L>;5KRghala#~uZmE{LB2Bq>>gPwwf{})ata`)&O5MhN;IDWw
zKxdkUN!M}N8<|8`K^z@!Rg&A|r4LL|ajAQ$eyZP%;A_6zZcyO%V<_CK{PO%a9dNxU
zaoC4zx0rARSDo@QUZ)eTVx-Ddl&fbjWfu&NCzn|RHSAub+zZ=86o|i5_@tn63vd1_
zjkifTr~nRSnz<UcZ(e3%CIBwgJN5HbRb-Mk2vqqb8;N)-|KW)^9m#2r*|EifSU-9Z
z_t1+>K~_6XGFN(wcp81(2IDOAH__9zbrEg@=Bd9*T<G%V81AxIfxKCVSaz`i8>os&
zq~|&rvO};7Q++QQp0+AZ!m<&$b2+tka=`X0T1yf2c$Zz_ZC+WObMF?!R!isJzRqo$
zHFR#ztO-NqcgdEEEz3jY_{_RO%P|tbD(*BSGS!tQ>`;r5lBD&3Cn)7I3d0XPgJtb0
zGyru#ioX^Id43UiP`(8+b-A$ATFc7nV!^A+x6fN$EK0^#b*3rJSlEnTOvao)a@i)I
zRXFPRyK1Se6gch3dSh%Z$S1L~tl@Kko}`@7^8Qb4p=^_YQ*v5wLeSA@EP|X%0$076
zAkbV<B-MAG$ZXeCQ92vJG*f~r3{_XK_E#iN_<~+Ot4%tA;{POy;e(%D<{QW)j$0DP
zNOIh5mjQ9EzLH2RTe8e~{)}KH;KiqrX-04_ligwOn$h%>HY7=6{vp+a1{Z_X+>vNZ
zZU*ywBk>qr4JMis>u8L-!EE<5HnTIpRGl~M(?~8(m6EE*bPpSk6&0a=E0?S%RG2!d
zTo34~s2;kCy2ufW4dAn?npRKO+RA7s%<3`HQiexZEXxnpNXcwPYB!JFIU0XWDPznc
z;2?Y?wY54SFvl~&A`aOU0kuv(HZf?5kmOSJa72<sR2^!6l0*>`yvk|iPBCSss=Y8t
zNkT2Wbw-EfBvhNIC5WWtg%s&V--5NgP_=x`4;qoQq*SZuTo_i8QkBg3E72+$xidET
zF)T+=XHDm1FwK@qqqBcYnkM6@LlPw8yi%3u><=q>rF7ke67fV5@<w1V>?1W3ypz+h
zX@jSkXGgV&&gig3c2wWe?IATQ`9o>B4MvBB{Gr$dxl7fk$L_qzQdyzW`PiK|S=Ige
z6Egf6u8KG7+7uhxZPoKhyC%iP*?+`pXM1RdNA_K{J&=})e&e3Un4i7@k71lIC<0Rp
z0ioYw(akLcL@~osU|I-><c_36+d@DTbF>azfe-O4NK&+wH$?G3qR<w^5XBD?g|<?K
zC_2ya>Mkm2*TLoZb25m7J`7!r4qaMzNNK(FaHd-cwc-Jn*1_t*p`1l&*bQ!}Ey1TR
z^QIc)$^yTNXgAdWeAgyLqqa4HC|oRsv1fo723Q7D&j1mOXc^wvGeA5O{231OvpR_6
zigHi{^{ftJx*;$jo}xiCou_-{=9P5s8q$6F_6cN18=jD%PoNwZNL|`@v1z{+g6%S+
zyCfwQZBGi>e2tDsY_|w8J(9#|&zwLMujmYEI?DhtyyGL$bd~|4_=Be~o@D?y`dvo)
z(bX%l*Z-72KMFqKLdW^BoY%#9AN`E9IV#%4dmr1p7tL<z<UFo*A9QK<LkUo^#Nbn`
zURym+7}2&rCKa9S2eea$wJx-s<%iuL1wGbImFXH140Ns_v{{brug)w(QpZ)=f9O`g
zNylZ5MX=u*bzX3(5};!65z-Kqf<<SC5y=jvMyH(}FdYMOHxpP47wD{OJ{{kbbsx~4
zWW)zO>0got!vXvz5kE)-sPp$tG(SmmrPl#Y)=!!i+!_BSHNQw|Fp~yq(qs~cmPwq-
zK3FA}Xx9$sbKW8_yrSliUQrvb*B`H_dFyrc6*XL9>$CbseY?bl$ZJE>JEK5GL!P(m
zvlEw-lwjh=ZVooUc05P*x77Njw@BM4sK2GwXQeH`c6aV|TF}*-j7n5`qy@S3G^3re
zW#>hUs>&;pmMy-%#8kH|Nz+t%BGYb~R_19s7rxbZpqQp<g+Co!-;8gkWR12<t-xzX
z$J>2Xi)q?8dSkG<^VCknBbM!B@#vPQT74t7BY>4^LunI_J)O=FPvo!BF(LlOB3ArU
zhxm*{JXjCL`f2=T7_{vz_wZT%wPV~1<qdSsF;L}QjpaY_gE`cthykt-c-rk-TX&+$
z5?<#Y*<2JJ#bCz0GH!QFW-{~AtHsuI!Yxf>lJo0Nb%RMzL=?v(Ywd>s0$o+#SJhS3
zK=AEoym}amL1GNwEn+|4_51{zFKHyGPTz#Q!d}_+4ZZm`a{Cyem`5HCh{q!hp}Xjr
zhEu^Q3C6<FF*3fKao+^$kT|B{924Ikjg_=+GP%F&|0X~G8DTwn4^byhLr<hc(78Dw
zj3@Fw2i;&zyc>7#F<t*Qg_La$q97oyE6@A~U$*(SLpU9VeZFid20bQ1pAb<rU;CT4
z*7jCWZw(ps=k3K{5Ft3~jA;UwzEeTkiepX$F_kmgjG*^}a7Mz`MiYIDA)1sMeh@#U
zZN{OYYZ_9{JeU@b(Hu%d8qjvT#&BWNRsc-Upm(3pJ5F00S5Pq?5rT5@IHk+&XzC6k
zKMJ)LAhDL&+(;0*VGAl)K(FYcrEd8Iqq^A%;UsXPG~6g9dVfA|7n+}sl+y{PbLPQ)
zZS{_y2bi^vw2N^|2IaYb<^1~n`d2W$$A%YiDpM7=$ehHmPmJW5#l{pihe6kzUHJm8
zY~%}9p1Vx=-39Yu-yN!5KF&cCY$iVQvYU+&Y|6<|4XWLT4V$Hcy2I-ZzP&;4*TIgC
zusZ|rx_MUcx49#i!w3C|{QcZDzhM*3N1nc-p8kV+^{{}~SUU`twHKiwIF~I$a8}SV
z+l?05Y>k50Z=v1x9Vbk*%<x16!kEIQU~|&N6{dkTU0kqlZ&vII$xYJpBHyQ;K-!Q;
zflPixL|n<Ul{nesy7mGtVz$njRj6b>b=_@Tmxu!{|HL2VK@Ui*e<xXObhKxz|Ch!3
z@4Q&<Ms2fDL`tYNf+MM0k+4?rtE9ewS;jObq3ezZ<5hViXyUyW6P~beiPQnbGr}oe
zgqZMU2g1YX<Mz<1&Vw16>KAaL?D$|z(Xjen#)IxNIaGhd-5VyR@*z>i#w&xC#O5>s
zBJo$Lk{kW$Lb*9Kj4I|*@0`G#H+;bS*%9|;{xvD*5l5OUci(A}kR^2?782}eKjH5l
zqb@MxMM2Dbiq+jRH~zw(JX9ubodxk9aI;lC1(3EgwY)S+Ek8a}3o^=bi*=IRGHM^a
z>VnlE#YBgtn3s#D=+L05NHo^@;W<~h?xb=wf-7glfmuhl;jdSgb;g6-+m2*JhFSqI
zWJAYz{c5*d47(~;W*@O)SCeTiz*95gJ^vr(RBva>S~W>oTIWm3vj1Gl8n=|=#(7H|
zmbX@y&(opdRgt`AXT#WqH6WGGYK!2yRGqFd%lt--!QFXg*%fXRvyJE0(_wSVzf^V(
z4W)`1<((UuGs3lIk)xS7+f>bibF~9fzm7NBn$rFt7nDoM+bPrCY%h!ncFb{cJcvv1
zXNU1c(*B0cI%&f;EN$3~Qa5>@9_pUJLo?;2N)HjqE!kxB7c^||MMAGs!`5;1`M-Rg
zj!%fuBBKXnN9$DCkyO<VduLS+Pqtj2l~rYOf~wqcjA6^jRToHu!t5VXm?8SY%O&XG
zrFy5dI3FEAP7mk9ACfCv@kV7W1mHkLM2aoUQ=eupiXpz0aC4%z>bT>~K83&36b{M9
z{CIhjef6|gflOWXq#KahhCY2`GoMNY@>7dUmXcE@!dg*2BZ39J85OUThWVZQ$kq#F
z*BsO%0{fIC0!Jam0<5b$aLcvz23jPTu_b7#xV=E)ddflF^J|aMGLsabdHqpw6yufr
z7;(<L+M{ybGmS~@VMa{pGfvntBqHUs_Bb=A1J3R9S8-rB8wg1YoV}<Hk>W^e%?YHs
zEZfzGX&1Gsj8%8A_Qmyw1J+PBTB$r@_}Z`8`~M>Zm?h9L@foSjo|gM85rj9DkqwRb
zmW+qe%D3+owK<xrFLN9XTj~&skC}#?yq;KS9zY~~-!0gXb+}Tp>U%~?vMuYI{F(F}
zj-L>AQAZU&DWrlDlV!%$uwNzq?edYyPCB?D2D5-6#ZP(}h8=op!x-&oJ)qqPp+pHo
zE+G`wUjAhk>fDEO=)2@yt|1%qYD?6hyl?B_V%{hge1L4Kjz(q8yoUh6Xg8Jp{ak|Y
zH|Yd6%cw->rqZ5Lf1$o6FA%9U!>iTBtDPIKCGpDUr~p@Q23M~OS3fsgbDGAK7qA*l
zLpg&gRVk>bqgKXWVH#(LIp9PTU1~Os;QcVobHh{%FCG?fcAJLoew<FtHHf*rd@6%C
zrwfw$qIZ?=^WV9$!STvqiIvv}G)NN>1)rJxPYLhMSrYpsZy9PYG<V3~Rmj~Y4%q%I
z(EjMIt-DCUNbF+6{g7Or)aRz>!?MpDsI5BA)qFdt8hsH6^NP;Wr98@2{B>FtUJ%>h
zA;F06zG(C%*V44rG77Dhz>t8-3J7lAFm~5Db8B{-T=>T9Ams{Fq#yK|Dl}=^lVo<R
z^v_3FyF`1(iZ-u#l*YTn&W{#5k^j=LODsKBZ0|-smLvWy!D0O;j4-~k#ucX#bzvfv
zKmG%?yt1jU$^KTbpHAvVl#8PUfAQ*;xu=u5VQyOMHPB)HyuGdV=pWHpt#Y;JyV46*
zwoliQfl-|8TLE`Uxf>z(cC6^lOuc3FX(g}C{vS-YQmBSylMHy;#adlg;yM&v_aD*H
z()JMq9qv`fQM}`wm#okpuw!X!8dT=j-y}r=Y1)&5ix*d6$l2NFW1o|B$nEvn^~*KC
z=4VB(xVfM7f6<>m#-v-UQU~60=I1O<d7REIcR^QEAg_$(1d;+e1CRVg@aubO<&-iY
z1!v2UZy9*dSfHG5EL`(Jj|6@3RXkmCD3>_rE1w2W6E7)<`@GCJ1Uw@=dxEs^C)q?j
zY`*FY{142cLogc`umSN$;;S>7BrQ>=8&nIAYB>`23ix9d9S7XOg9j3Ovdj}W9M;vq
z`g2Hu#bNP@cW1(A%m>*rjSdGN7&yEmN#CjTJRJDU6!;c$pho~68b<koWy}0<*pVUZ
zjnIPha9DyA51;s=l;~w#v~@9U2K`LcFRAt!qpQPFLqiY$e2kA#zL7y9TN3v?W0zTW
zgp>k9i9QbM%+SqOl!uRp!zQMBai11+c7*sY4EYX{EPOf~wlIVprxCmz1p9KO+HVD9
zPPvHSz$I4qMm+Y}e7S&>7hYVDG)tk~YG15|Mb202<y{?PX~4@VD@wwis3U3U4(8I1
zWy^m8@(4)|Y;CKDw&h4uR;RSVpx`Yn9Ag)5X=9N^VhUU((9TRS2TtNhxJIq7UTbIh
z`%23yVW)AL<uywhMqd2Ny<r!<)VAVO%tS<XuY!DJu)+FF49C^$ADT+%wk8TY87V?x
zlZrwc49O9Y+>3H7e6J%Enyx7AGG)dk;8TA%`0v;2-;29@;)EFkFU-;xVB9%p*+Tvz
zevL0K;qu#f)E8Blvn(VF8nVoG$1>qY&P@Dp;2a%UEO3achy{0$%>Jdx5)f#viu_pN
zS#If~?`#M&x=i?vS-W41TFK|J@JG+5#lPUE#lJi)zH<kQ_@p~<&$1*-PrZe-_=-66
zA|Y8XP}cpBa*C{bx#N!feR=FGD_#%div|wt1)@?EZ$Ca&V@0J4ytOOdKfl|@^jxQu
zG3CV`DI2(ZqyDPrMqAsX+?Fw8_tycfy}z?<%NnXL$7#Ogt+v0mx=UcsY)c~Q{;9%c
zF^94pcw~*ggNRKlF^qP`!qk3R>40@pY^&VTfNZM7HLDVr1oG$iX)FY!nap;XxQ%7f
zoh`UKgz0iFpSBF+X3}n_pUx8)Fd9Aqhv?Jzq8um=F}mEVN7_z4uR1jC($CTj-QBs6
z$w+!bZJZL_REGDZ<=0__qA5Tdta7D$rv9qucf5a$xY>cai{g(^#DA*ehh}<Z#Izl<
zo;PXAhjqQp&mX$K>G!9e`;E9X5eIsAn!Q2P9b|8s;}l;xlT{9*vZ5-wqXp#ax6u_|
zlQnSSZKy++x}HDvMr6D2?hBYOICX4PMyvjg-^kasKVNpgQMz30v<s`IJZ*ShOSNKx
zk@YHB2p74mY97;M^ek*PAn*4RgecUt6U(5TR10mphGJVrqPsN+;-uBK%^DVJim68G
z8i{xv6RlL&W9+lpy?!y^;+VBwl-KmETr)HTD?OHH<U#j`yjC%CU0_6}7C_J9i)Ap7
zGPplB+wHERo3zKqYY$FdTT0OkA@in#twz_oc*@=&P9yc9J+<y1Jhhf{t%j)M;gM^_
zU1vWq2pUe@bx7#s-;P*a-a7_8x1+A07>y5Wx6ahSU6}5nbJlM>PQAuz09>4mucxxz
z8o~*=ix<03!KsV6i;p>~5Zk4JhwD)|?`gY~PpYq7r8|)41?h&JGvu~Q*Z&vnXh^%q
z#IHp9d=jk23XF1mUm|dMUVE?S>~``azYyz@uiHa;b6fpttR8oB-RPKIH#)?ZKi@k(
zHeNP5jhBtu8p9Q`f6(Ey75FAU4+GcbEJm7p)n`?)BdtDT<+(>H+G9I0rr0uHC#K3t
z6K_q8)E=QD+Ju-IQu(MC6FMQ54#HnrCZQpd?bmT8WFq|4QqvHlnUo?!cQwUC>$1qu
zWt(?1CJqBbI*7n%8G&gM?7!v1k(wEjYIL2J(%jU22ufP81fSfP=|z*^DGCK6o*IDM
z1fWsUG$70b1fw<@9BzWsT%sD37b7;9viS`3KSi-JvFZoO0(jb`lUq}RFc5{ue?)+A
zd2BmYc__Au+VN#4(zV4xK(a7Xf4vFRY3pSM>q}+>bIx~?-N0=;iQA=O5K~MO<*E67
zGI|n^iwGRGlWrww6I693DU<7%#vw3%g%ay59o6fmKuNvQo$dk=ZWBLOz~7pZFr*Tw
z+@e%LQYKw-_+*Wr;R5z_KAdicb5U#P237Wst1nU1zp}Kyq!2{4Ux`}j5R91uA(I+B
zSj2l#fh543X|OObYmRUZ^i*3mG+b-5qrl=tEB_SR_KxIvrsxb0$3F6qqCjXx-rzu|
zlfhwDR~<zCynmN{Hn$s@sJC8Em(HuW*?RmMxXAM|by`fF2TaZXu@A1Ig4{d3T<Sds
zX3dSs!g%z3-!p$k`uk&wv@UgntA>VwJ?O5BSurZY)l6TL;k){McKn$!jEr9&;sXtP
zZf)s=0l5!&+Pzy{ccMrTJ^PR3OW;uxGjUFm%_Ppw?7Z|rZIuZEfi@rW>la#3T4<<h
zabFBc=(^tO>RZ)CL!PD&Zx8H&U8TeH@%wD_%lq+dN{sX~v{>{)Lp%18)DPEIybBj>
zl;7yT`(N(p-R*QTBAON_(SmHfMH1=ebL@q`H8L3w$zP;@%lgGE8>QuktB1GyCd;PB
zSn|NeCUHmEl|SDxsts}=O16}FgEPmc19G+r!9q%!Y&dHg(!^h+nVlhVz7)S{_SSo$
z<b6XEN)~~)OX*<jl(rzg)^zS{vY|mtlfl@=47OkB=X;ba%VF*ObqRmuNNqpT4>K32
z4UMwvVrV+-bhlM;x0%L)&&VoDh`)`4!iEj7q3N^Fm>vx2*{ri&GLKe%x+%=K5Hs4H
zzoN|F(rdahLi%2eCGCM{-e-O`V~=gx?yo|b71kQdzB<W#=WSD!@%kbPQ+9>{BPd9x
zWV>T37OV;dRU5-94OJuc1*>4iJ@|tUmd?F4pkWs3#7ov4cj^QB5z_^u%bZ^}YD3e5
zb%2TtVoF~KmlF6OoewHB1T(CnSm0r{fTO0=n!5<1Fw>r8<{^^O^)~xi82p)K0;$cX
z=gg{IvC4ndv>QLj<|qGaYH>kx{IsHMJy_*hms>rG-p|~idGqOb?#s*$QewUCB1T;n
z5$>_{so9@JNIlRr3zJ+>xV$>EXvRk!$B(bc`9K1zi@+QfmmsQ_N7IXC{Fn>L<>Aac
z@o=nhv<sL21K^Kb-5wLV^cNm*`r3p~KMLO-`ek%I{`c4W*X{FnVlJYD+Dp3fb^)`m
zi=V~srG06TmEv$rlKIV9g=O(YZ$0u)e%)!yi4#9$rLk)Gc6qeHIc;bM-w5Ac@DZB9
z!KTRK#PLcbIu*<k70hbV#ePgxG*Dvdq}m!B)(-c8B>YT2GdpC7=d;wwuRRte&a}8N
zL;Argppan9RNUav=xymgUa;dqG<Kzv+HSZyr;V1+nOSIr+T=uL)d)2Ps(n&kpTkLW
zB*;dFY%S@0x8~p7BT_|g3=(6tW!7~*JijWzTr^mh7B=II+HiPLQzLacTMbzIk=7Oe
z<kuzM4U`uT(1Y@V`FugycXIo8e#%f7w@{yTa*+G!7R94+=>pkIQEa+ACTH{&g#%-x
zh*tNXP`o0XcZVa@4I^jNx|6r|MaooG2W30dH<~c>CW*KXWy;8R{pMr#F)>%!pIdQG
z(w}imfA>4qO9s?n6XufRCg7QU2Dn&<XW5gPYRgC(F4>v9+AcLTJ=?mN@7!70JUT1a
zdHA#d$#wGRo}&S~@|_&(4?d9ta$aM^>81kKVTUw%MPXTZEc<{}5=0>m6{?4BcG8(^
z$7^P29Po0@Lb0>)?7;q%b9C^iAdYgxzZGJXZ{@FepAzNMM?6-oZGeEADFkRYHMuLl
z<MCkh<d8kq1^FY5vc40F0v%8kxI#)hyB^SCo`lu|t^PyS9hL44Fbt7<)`k*6HIwU0
z{DK?I^7$#6f(Vur59J)8?xUr@@@ayCT;tbUH#>Q(_;@%tLpkj47FeCWs<j;!+t|%+
zV7?bjUNb8tSbziTY&*zsQgpPqhg}CMMwmj%Ic<$2;NH<O(#cC686OJy2E<JYY1qhM
zgp|&b7%}?IZ6`eiA;TG<NA(9u?rYa;;Imv?_L0vTYL6-gWZUl4KxVdjFsP+9BL+ob
zcN0+-c?sNpXA@C|!QdFc2A>S+1Azo+g-Kw{UpQ&#)^iyUL>JBpFB5d)<|;q-(c?oP
z6WK_r3whg8HL;B(adH$Lxx{7*K=VTu6)Pkby!jzR+#nHQ%?KIV8xjpr$IGBTkWh#^
zUIJ-pNJwCfCWE`h1}326A;bELr3UMG$lyBEv8wR!;)!djP%>E%ku)nJ*;mnI0o)0G
zPSD~+gchGHwKg5LkR?-X6{{)nu>Yvw-_HnqX59H=zi5c_o<u#`yf{R9Q7TYs-n0?k
zJQoKO>aDFQNvPY<4p>E?ni^EF{jrT)SV#Tn3JDv#utd|UQ{;eT5ah7-<7%mcpQsu~
z*d#f~^E)TGv2B(d?2fUPch#oJh3>SmQ7+wcyGW)@#i1J45hx^^iVQWpM!52&3T~x1
zdssifYi8?^2g$emHX%}g59^0S*np26dF(;Y!kw5r!!6K7G$i$=tpbzA(8_I3w{g(N
zAvh26Am~t-1M7&Ex4EooexhEeEj;`}?p8tRBKDAb^7^7`6GIOv5wabt+GNf_J<n=b
z!nX^@AP^>Rj#d9!J3x)<;(}C#rl!Dlc}dhtPz#_G4SJ4aSB+@<ATM5g%+Hz?h4HB6
zWl8?UhJ1}AL;f$le0xv^b4seNa`1(|?hB!@pxS`ycyxg+sp$RQxJUqgBk2IjPzllt
z`V~s-#0PyLG){cjn{|nUVo*jF4+X-V^V)~?M#rSRSe7_t2P%NY1|mj!kIe)@dfzSw
z%VpFlU+;8EWf0)s72wa&{ttz12Igt4upbhbeqI*2US<jCf139@1OEEyE*rI<)V4mS
zokqK4K~sxvWA<rH^3SL8VD{2uo^|8XU^$uY*FoL|-N&59$fS7LbRK;i6Xc)EdZb#1
z?S1hd-=ggsxSRvuA$Z!wU0ZviJlDRye<ZR|4{NP``drp_)V4Eo!WA(pPZ69D+VT7K
zZxTR30f{c+95`0xzSkyM*{|4>r}5W)XoatDv%BBu<HwV&hdbZeA`;^En2u?`ZJRXs
z#J({IsQ$qI{6D++p`Lii4k<~VGw|OnF`xVe{ww#~()F-0WG{!uo<qYP)6<7d@i2SL
zvbENf;_ZDz!ho2VkU-$whpXXF{Xg{bX_^1nCi1+%u^5-@udJ!~@1ftlhGc@X0G+b{
z+ADwGkCsbJwAj!##bo39h~kAXLDz26oiW>Oaq?&E0rNiCY)}Ji2BMT`tuYSSXU~`-
zMYIb<kvVj+w@^sfc}K)WK2=1?>wxjVUKH`U6mL3jA)XNoTY3zK)t#pVQfqA^-=Ps_
z)>^Oo_sQ4Y74|W4olp~{n4zFeKZyLipY^-N;sHXSqB^dBVMl+*PPT~m?%0bvk0@3~
z8`2FmrtAfX@$+ub|MmO(-_7*RHk^Q9E7(#u@U0i|U#VQ?Jot+jdO!GkQZOH`6^%dO
ze!Gt&Jo@M9;g0=cO9IE<Acq8PO`CCFvrvoCrb#06X@PxuHA5PHwblgFi1@txf`J-v
zX!;gWt^JDV1ha3j?*QUj43?D?IKU1AgjJm*ez@KO4zVj5A_fZx$<P2xWePd<Tu5(o
z$XT@YfFO?}Eet4+R{9;;0K&z=4-T)#@g7MKZGk{}Q*J!57a%<5>$Sn0y}lA}mKGis
zcs1jhN8bVV+zpeLNVEk&QY5332QS3RTfZ&FpX|Ae99rv*jdw`Mo92Y8=LNwhT4S_G
z^nXU=6BAh8_Fbr!jw+>l_@k6==qsgrR9jRY)%xyfsg_Qy??!5UH&W}nv0Ck3h)Oy>
z{#487tK~bicWU?s?w4A=fU4!&DUB`qFi=|`Mp&&qp98h^;W<*P-)l5i$~VCqrF_%1
zr<hM|eV8it-;C^(^1X#hn|I?bqJdJvKJr&e30aHOR!yiYCFJ95wS<1OQA_wo?P$|@
z+H94^QDYPYTcw20!I#=X^FkE+@P()yyBJfvan%x1q*lYs`nM87lP^d9QOoEnXJo&3
zlrr`Sa<F1Xj6Rhz-Xo%R=w#jpUf?Tc+-#6yMn6<+Rf4G6vN~|T6h{EDLZy^ZtPm+?
zq|RC`W8^9JBl{YwjR3Ei9Xx6nCwQaSs?)WnoRO$zjONN2w^(WC(VV&7LTx0U5#*|E
zt=@cBaUbAgjnyt|Ge*}_%lIp^A5{sX#YO>&SB5OneN;MAWj*|*m?$l-*5r<m;9D)F
z*fgk=k`2tM>nNrqk)t%&S#N%bmP#W*hmTx8)sE{rVkD`yb?yxC5=EX;J-cjdM_oTs
z>d@{GQRNY#`y;|3RoqZ_r`TJno<Hkx(s$%3aq3|gUx)wJ^;bGU-^z%^DT{<y)5PvZ
zn?xRNcoW_@t)x2sOFLWQej$pjSN6@&zZN=nrS7>@AGs6`&0=UzJ|JL+0rrEygF!T1
zzCruy!vh(_uIDZ>bvL*>O5R+78&bR-->2I14Y%=6?M1rdwl!nl{j_hh5jQ8Ex#Ckx
z#{w?6fEBVB(=GD*-!_aG*>)|hpKWng$zEfRjY3;dQ#_qdy!#HwqIF(f01<xf<3Np5
zG3>X$>~37f|I*~ZCGvNzzSgn9go&$CJ#j4C6hJXFlcNVD$01B4Zebs2Et|)*BHA@1
z?Y`#cx%Y9PNPrE90AbtClt@mi+4-&Lr_2rv^S~}@6cZ8hP2;Hy9*hi6c2SQYmLcvJ
zG)9eV_GSHGTO^4ABgy=%Bt0QWd@{5#F`Tnvq)QNuiLf{?f;h6;pa}S^2)rAE3G$$Y
zxb*1zB`nvReUCq{e`IHWd{P}HKOLv@6M^a|vj>x4NY9)Yu5+eVl_aU3^}D&NmNXrx
zuxg>6nDr0n&<l`aL&xbkMre*bwZ!`~T{oe9A-ABtGS|W7y!;&ZEqDhz|0cZ85xoiT
z1TSyG%NKKRz$^B0--KACA-V-I-^6+oV!qY$7R2#p!P_u@BljltINn%yBW9kT=QhlK
zcoS<U>(Do$j+aeuLLIMV-hw(^>$?T_ekJS{<cGy6wd{vXSen>8bMK)jyqOG!NWzs)
zM}~^UI9(UHmS08YsTxezt{&B(I85DLPZJNbgRSxAzii>)%)SeV2bF>A1XbsF07<h>
zfK3i8b^*T3|HBT2gBJ54U}y%cK|3PDA0=>z-8g69HF=7TA$uJ1%G^wam`^_Y1{iaU
zzrZlBU(Y{*yLv&t5OGQ&RX$9q0b#Nz9G_!=0!*itVc<?OxI*F@kbpb|tJZpVLwD{n
zN9{myHIc(F9HR|hfCB3=@SE>LLh}h&t;Hw%lMw+Zt`Iry@<QTjT;5?o_#t9g;0f|q
zc*Hl2grLA}E^)fy5FU9(c6~2!K0%R9R_E5iViu8kuyn&UBzRkUj0XfU#~oQk8w?iE
zA#y980;Xxi0TJVs4?skVEB&+tg?z@FIR>?4hf6ua6duzB#q0`9;2<MF0lSum#Gmn8
zDKsj0U=gU|cqBNgII07VDvskoq4FI{T8pPt6@9rjJZ^k40u)zcjV*Rp{&ksP3xIW=
zcw}!3P-tThEt(i$Z1$Si<QW=UjNdsyJSW}^HoUz}Q8>g2D{+P$7W^PMyf>{(=?1rp
z0bOUzq0hQYkcb_jIIK|x=359_3er0zAThgXlz;{0fPMrEI>8Qh;ihE-Xs?knFHl8|
z1xFPJjzLkUtmY#c5zu1Q+s7*?RGv9qYl$X-LBkD|1g@Ek#-PVx9K78VX(H$vhwlI5
z#Sv2oNu{^${FR53LzB&N8IWCgenpE3+0j1D1P=<_z6*izC@kK?A6UGh4~zE*?2kua
z`+-d%>@%Xn;*EgqHv+cb7+Ag+0*WWLg2Dp&z<^g>{!;|V(_Fy<1{4@@2U|;c@@`l_
zxH-E+`fXsq2w1|`Xbua=cj*EHZeRg<0xDoY;Bq*HcFK(GU;*KVzS+&rpoly(H7p`e
zJq?bi!y@wJ(ZGms1N}_;XIMl&%K?iBxGa+0+zyJ!Q!qm#0{6t?o%OJY6amW!xLYfm
z=NK5$hld1QP|KYv0EHB}hG8M&6i~2`;!p!H<W;u`7em4=xnvXi!a|CSy|9pwbHLdQ
zxWJG+#VstP$S4a7DN@G5LW-QQ(2xWil4o^=g%n9tfguTa2!>ph$mThPhJ@Q4k<C;J
z3YnxLg~d$Hc!6TZOWm-TakfxkOmTt%7Be}x28;=~Z6$xo4H7d=j|mH!o{575?E>#N
zO;Fj8oX>p18epFn6Bc!U+z%2pbB+%N_HZ~ZUf*TELmPN((eCvDyE~bKh3Rp+0odeb
z$*DzX@Z;l%;P~-DBIeL$EN=+oyb`={9k_AE0l#}FHP6AqUAkcVPxc($WSJh^_`SXD
zp^yR7Y94@#^T=L<jPYk%-R<Rtd<|Y-UdY$rh2n*LBgK3TUhP)I*XX^}g@jFBj9Wz5
z?8TggjE!EhSjgDurH4g~@%*M*%4TnOE2M1p>a!BcCT}7uq-^%Gr9#SPZ?Gw%Z2BIO
zLe7RSA}Qo-`1Xn-P6g@sV_MKe>N!Z*E*}Hd6?e>Z#T_MGaYyNhkMGJ-N~ogw(bYFU
zy3(sR3n`nuU9gB!Nn4<+zMLgyZRXyN1p9ofEC<zE4)#3TVV19%%&9b$aho{pi6g%5
z|I40axW+wuVSlzoE_yb|#ty}c2llUTNQrie5d*}zwp(^A(=iUuvC(D5<`c0z8GO&~
zy&`(JyXrnPhPy86ea<>wXq$hcfZ`qvY*94A?ko^RAUu53>d()!ii8n)+N1Ol*K-@S
zHSRKvXVEskL$4XqLWSSmaDsWRaqg|_x$9DQ?OYC!3yINz7**CtiLC#fqa5$OJV$+R
zPCeHF@aFtd#d4PjRA}W~O0d5kpaOhxF?gEzzXBXz3Z6;nUkv|s3aho^+gO&ahs96M
zwgP6p70_CTM(Z*F%UNUR(~kDh^&%K!8IaG*o(#9hzvxNJiAWfbi=OSep^Z0Nx)V=V
zv_r-U(_`aQ{M>SV9}}4eeEe<4g<viuJNG~jExwTNV4GhzVP{NG{!F_ahX57{WT<qV
zyT%Td8Fg%T<p=!o2-{~Za~LC>w|=K+oEN`d1EI&S0^;Ynm^dkqvpg4<=w%ed&Hli?
z8ow)ArMe_V2;xC5W?4V2;{^T}Ce#>`U?YBQv0w9}JjRlJQjWeia650{F)d-zgKcOm
zNU${q{Dr?u(Tnig!8UUxk737&BFD+~D}p>5EYCn?Tf{7ubaPn6!wsI3IW8X;NPOIg
z8+M05eYoBNT<9b`XbU%Vf{36M?*K8vBc}>CPg!M-JVf0u*3nMm2@PU+(YGxvg{D*~
zG({=oxq&jJu!Nv2RF@UQ<%XIAJdalVT?V<1A3E0#1`<APR7SXB!{`N<PLvyDAHqz1
zZM0_@^rXH^5sa${lEGIU@#Ei`_u^H&uf=ez0`K7_cf?63@gk!{wUx^Cc#(C*$d%LL
zRYr?*hAP+NRn{M3d$N=!KV<z;ZmM!Ue#q#-!Zm%73MAU30>6#_WQ}xa+>7y@&6X!(
zpf2(r{;+53P!xK+$`$37n#fp+H%~mhf|RYMGKy6CqFjrqY`GQrB&F1t$*6J0Q00ou
zWE9cbT$40iwUjn*vZbraVCCw($(AlYF(jqPyNn{W3|6kqyKE`T%*WJJ=R>xXRT!*X
zkq;R~j{8D2HTfx9!m5l_uF6kYpJZk{YijaKMw7GFDp%!~RNXgHT`us=Z&}||8LeEQ
z-?Ftoy_UYVB9LQ|eH)q^jc8{_BdsaL+j}w7QaLJS8WX%^I`CKVK0{G&SW@it%LXUy
zmQ>`dSKLa=LN!}aSvU-X>y?GJCL1~{N?W-eZCREIJ<3`7b*+_N)gfi6$GSS4K`)md
zvR=kr!d#_n*RC;nKVMc;^nUH$zAoR<*9W!H&y3;A2!{0sE9XYoWfcEN=}<BFEhG3>
zN{7l(X&J?+HbwP-u?&A)8~@xetBm1Q%1D(%pfZa31K)aslQN!}l(DKt4P^}PQpT$6
z$(K?5tW9ygk6p&`TS|?}&Tkn7WH3*Qb}pRjvVAO>wn&$1D-PA}vbMs|>Q|7OJ@^v0
z7`jvysp?vnF_=;eRUNi62I&5~h-ta9Wz_3Q^$xd`$#kWR+J)=7%{B?032Co<fX*4s
zJYOLX`>o0d7xB^A^aySGcZQ;#<#N5A3+=Y9Rg%wjrb|k(1sx!HbC&am1>ld;0BO}5
z4V<qb@(iZ~+=5QSWiIbPhZfNT$a$qB)v_G=D3>YJg;eO!-^gjym8z8cZv15m^`Jc@
z!fQ^So>X|wbciq0=&f#BQ)^+UsJ;29TUYBal-AcO#~4zMG3@=2GUu4;cxKdI;_nRH
zaO<I6#zc0VjV6}85A=M)cge1e3ao7D$$(v2a%z@S%RU;RU&e+&yAem-*qon{R0X_z
z`)Wcrhi-{Qg1xLl^BNtA8hy!<p2S?rT$x#p%gp6Kn~M(ta^`YsE0mp6xlEhId2OzR
zuj!k7+`Wu$SrsC`evRXO%9;D`(z()o3`;jyvA4vEcY3lX<ly<vV`J!gxC!)3Dp@)B
z)w%9)XB^OV?2bHa0<f+RP`_>d?^@8ppztfPSHS^?tnWqGIc>+-#}BC)d-3Mpkdk!A
zc?EXH@#WBiLg@bireutkv|scKc-qZcYjfH-6rKG?@e}(aB&4MSX%|SF?H7$O7vjaQ
zNOBYY{YtW(K!QO6E3-2hVvNr@($&?~kpN9ccYh{#?3()Y$Njwj8~^%ygdDofJRl?|
zcWmGwZzwJ;D}!f53!G)Jykq<m54rGC5O>I5rZD91|3YW-O>07%ZQc2{0DU@#vke$J
z2PU+y>H7A;`4@lR_}*9K;Uvi;pE43>YkwyHoy#m9-t=z<|NMUbmd@^x8|4I?tV}C}
z<@~^e!YE@Bb&kr(V1-GZZ}21Fr9@g+<L15P762QLlhOBBzJbiTy3dwCsAy;Pyfqj1
zCzx!23_I1bhfl^OZZqQ&V`f^y>1Rvh8n<<7nber%=KC=z&5y?vR>n1E<-)keJvBbb
z-G0e(<01o`t&NM^<jnpI5y!a5kgq_-MMi0n7#EpA8k-kk*m!M}&d0Qf*XNMPxXOUw
z$b4U}^CZtcK_#Qiyb8h0e8eU=BF1a6$1N?GAD3BKfbmJ`%?XapkN$lYe?lhzdIa;H
z-j}n|_%i7aUl<VMG2^>G%;M-1WJnnq&olo%qj+UJ1$v_VZ@_qWdN;7bWnx?>;FgU4
zncu7iGe}mSVFN-T^b;qg0i{~VNn+-VW7Zv;&)N7q>4wmYmyj`UBwo8=43c;SEKVU9
z*B5WR?T0yT2G6$Y5tMt9&KIX@m~~Dl4w>Y`ch@Hmr@Yo9!`}Xp;T6BpF(pM8l1^*Z
zoukO^8FyMKVt<HJ_NrH4Lis>hSK<PYxTlG<QeGfq6lY6#*?~SB#_~1>1y2nY%iXk(
zLeb(`5(_sk0PgKJz~N@zODOW5%A7&SawKaC4d%HlBlPXo)gU;b=%hH>muyVx|6h(?
zq0d&_6Qnj$8pe><EHRD)?#sn-=vk3nyve$%vNC(-Ws$(;qJfs^7m}C7<)WdMXua>b
zRCI_GCbm@dMq*ma`m#WttP!64KB2naV;w27_K-vHvl^#bbb=~6eM0c|%;;dLd7}E-
zP4)FTGRo5;PI$=_cXYr3Z}<6dR}_7X=X+de5ogd2d9@W1_3ACeH$U2-6Rm4O1r!)M
zj@+|I_MS!Z_ClzVfdc=7Km^>IMPTQv3M{hiNJL#^*)pUPpcJp6B@2$X-m+tgmXO40
z%y*XxfY)I-{#Yn{B8t-@sUKEY@}ozHHYmcBsbe7FE@8oq-bMq%-*Jb>2-U<a2w+{E
zNF1hVVgQq5tBF~Q`mc#8METal5S*<+6H{iGX!PgJ`l(~2gdWC<lAM+V5GHGN(2l!Q
z2H906RC4MlMlhesM6Xva=H+!=<|Wm{$z(t|K}^^ebzIZRM@R}#*YmJg9fcl&0<iiN
z@nmHwUdyF2Fp#4_<++n)Yi*~%>`^o}6;4)MR6ME#mG&Zk(E|`rRtPc6)3+giIORH~
zhdDp)>8qvjqemIsphoE^(at*Oq8-+1XYj#pDRJ(at#_o_UaJ!1I~%2qZrkr$Rw?st
zU{S8c)p1HGTm4d|*~~XFs*I=*ldY78E%g?*m2cO>c<*EJp`jkHLK%41@>O2f<kqSF
z@0$&sI9MID+lkU5<Y~fUoD83Acxt$}EtcF_L*^|-OJtxiI+WS!eXuW1kKRp8iv(}q
zk*fGZ9(=2xB>8i5Xs$Q3&P8q4q}3l*?tQCq{Z5vaRaDoAe^BeVon&TfH{6c8;qc}=
z`>j?S+a2$(+jy@_m9{zNtL4wAg_iI5vOhqWdrR_EJP|*~U&b*0IvVzQVizQjs%6y<
z#_&@8D$rf=XLsZ~?c=G0>#5I|78O@)rhMUy80Fnh5{Q^(kN7@&#6RFGH3{XW`*qJ%
zo%S3R4H~$jZV=Z}L8Iwr@Y0l?@QB>hSSQ01D<WU(4jPcX1+gQp-m<F4HQg8GENf1S
z4yF3C`hKqYp00UcYkbw#5Jz6sk5sMel5&UlAq-t{z6;0bEZP<~N57pB-1BVQxQk(I
zEw_^{*bn-P@0~EW6!4QPoQqUU(E$g8PgO1V@{08zU90D?x`_qGFnHR{oojRA$PR|<
z{39?1%*SxcFu4bEn=h0x2Amj7Y?Fli`eR5klkJhZrIxqYs;${<cJ!!u^|spAW_&$3
ze>uyd(fB;?WR2|dW_0w+zq=ZYYuR>H&y%Ncb)L7I<9a*wgV4)1X_{<S)AP>x%Xwb>
zpVrt7-`1(OPNP*Gt>)GG(%(+P@oVa@$6=g>m0t08{x=rnx&KU5Tl&H8JjHJw#`QBl
zNR!?F?qqI%>-nvxQ8UiQ_2*5Jhpjvr@4=ZjN=Ex1{`@K%mp3ps%a^$_vUZ#VPgWx<
zZ(NOOm_{$*KSx%rcK5#>tk#?SPy@^=<FBHw{eMVTt&Urlem>08O>ns3RlkPk7Q<U8
z<Ez$>!&RYSaFotB%W!qLVLHEu8Rg+p8D?Wp{I0(`*x+iq!8Lb-J4>bq8=b2gUDe%d
zm!x4dUmbFk4c#cc-5`6b&GKNwYw3p9+6`}%`qAO$M|%veQJ+Pw^om~|xY7I`;MC9k
ze+;lvbn1Q-#?$QFUxtUX;KXRb!EzlRY<PjL#I0S0?-o%U{s+c~O_2j1!(>zKB&qHs
zEIQ$7lB^FVVyGLUw;SO>hc`2N@XXJH#lglGX{Yc_79JOW`Ec?*X_w;qehJx6lrUc$
za4n9_i^<I@^Jj<aHA|xp4|-OTC5B_JVjU^7&X101l+E2JpTZnGdvfxvvLLrc+jTgM
zqaZx^;M8;BVsw&|;mWwo!MT2(r>b^G#qXlYCO@EdSqGmWwa+Ph9j-$^Kj0Y0i2a-o
z`yHjJzx@vk?{5X2j}~+20s82bh1%HLU0FEn{M8*0*2D*dCC%e3(@m6pnFp(B_*R09
z6XQy9>8Ig}aN)7BzvMV6{`NTApVY|{{VP`<OBmLl%V&R|Hx?^t?c==hX0<Bk%uzf@
z?5Mrt$MM02SJfWRx%<QR{gKE)N9kbe!S0xIw;;5OpfaxVS&q-e$G2avMw@jRXW!D%
z0hgI~i@|?nbnq;`jk4>oXk}55A8;1C#*>P}idffOs&`uZkbDtl(R(;muG?paAGA0B
z7*h84+}@q`w)Y{28fD8cxA!pz8(q(6%)^dvtT`L<ij~Dbjk5e;qx(0nOO`Rd7w!0l
z(R}6So3xC!^JE;~{_>bIKF=^WO1h+GIl8WKZj>@Ud}!6mO>u&dW<j#6Q74ODqvO-?
z^v9rgG_F?HX%dW=JAXOuaP6;pZP!S2j`Na0rzL@E-J~RvTacV`P#+iGN@8`AI9Zj(
zS}y&PSfA!Ch4r~el)@TC@w6oE8++}YBQvcy$!7q|8Qs@qgK}tIVgKTv-ZSOX*1kUN
zpYtPafBa`B+Be1e+E24^SNY=4{m+$;miGOW>u=~^D^W}Kj759$CufbGQ}*b@_oOa8
zX*o|sd{5q>Cl@~G@I7mbo>lt%!uPZj=7+VvrT#r@!2Ga+Bfi6=-CgfIQ09Loju`co
z-EaM#^@%Zm%ejsEJ$u6H9wpq{`=0!TQEB1H!e?5|`qf&8;nO%OKH}$JG>^=2KOU2P
z@zcnkM#1=Zz7ND_tHM{d4==^hEX<>2=$(H4@Nr78{|xSKRQo@EBPV8LEspZq>8|JL
zKvNp1QGkYds%On;tZJozwYPa_1TJX6<|j`Nd!)lU3*RuZm@eC3WhlXl#wwhV_v6Gj
z(AEsik|fr{QY}n#g!gq|kHPOv^Y<E_d!HwM7rXK}V_=fEyW<iP)Q+ape>cO|S=7Io
z<M)YzG>PPs^h!x$`Y2ynvT8+t8qpX#M|M|>zY<i53ECcTdh!KvNRZ;+-)4_xY;ziA
z>)79Zg}bKk`cd)U!G}gqN8R?ruh*Z;;mz3Hop?2;;mqH}d9(ZZ@6Z4KqBlhJdQen3
ztatW*?tlK`HbvapY?;@);bb%4{q)6b$(X@%y}K!qM}FLUcEaZ`Y}<rww8J1-hL#F<
zWq4fTo(v3Yd@O`wA`e(x%c=g8kwiP)Pskv6%3H*%)BenasI`+fOG{n|*tj1r1ytCK
z*AgP;#1S28X~P?82CWBgX%yIi++fvx_r_M+PDB66(tp21blib@Z2hk*lGYWTa8@GA
z905It)<;t+2X+!aT=mk-L~xHbd17g$g#?Z}DUx8}X7(gPV%==XpjsMnMNXmhVM4^f
zHe^SuE_^oo`1SV{XSNM95gqqoF5<#Qe33CRC%$p8mR8)-b7;NzPUXO6<cBM6bSk11
z5Ui`?$e2i79hZZ(tE*F|=g`&FX;3*}T`j`Zx_U-JCs}2dUB+pf>8YQK4sDzcJ%_dw
zT`C7I1wULZMc+jDQrWT?KZJa=={o}<8Ey|JQYzLU&Uj!;U!HTaXq|aMC&Avd0jTc0
zGF}wyS{@QRLwhvt$&o!2w&Se;h&l0|%(OJ&12KWtf4@i&*m}%Z)pgtx<lXHc^mF*4
zwGOx1M8t*NHkC0k!_7EYOV7>eIkdK0P&u&k_~EMg9!&(VAmq_%V|k_BiKPi}PcEfs
z*p`VHi#hX|Nwzd+%1Wd4XU0Im7PTU%F5PgBvDp@V7142jzKOW7Ip1YW#F;hY{n%P}
zyRwtFRuiyMaci!C3QAjRNQjuQ9vx~o+iNXq2Hixj9T{(q_1^L@<=3e#1H+~23ZYoF
z`Yf(x!HyY8v^D!d27#^FCSGaGHRH|QdOuqEv1R8t7141|o{6}yB`;)5%#l|dtfe8Z
z={dB198x*39r@v^8;$pPoxbfNc4v>qeRyvVg-!TN0K^=~J3TFa0hHE~q1M-@Ep@QH
zxWQ_2<E>w}7iX4-ptVo}#|<`<U}1|bL`ckJj|{41mwO_o&^Ec4h=EPWj#gc0zVG|z
z%^<c5*Ah7H!e<E<c3~z$VlLb;sFp5#A*ax~@Rf*xUC54BUAUDUe;a)0R>{klT@_r1
zm_Szpw?=}172w7y`n$$kv$cMbT8iHku+bjidIBog0$k%6tNZcVAY1@;v|0k=Em>z^
zYyX}-8ZSWK9t!LKLjXh?u=|tDw4C@S#01)je@cSDzGKF!t~1_nt(}IJ_s-o*0UP(-
zm4FHxZzv&R&by&QEv<J;&7k$(9gPB;j~lGI&v>WR{j>2j+kU=eg}}-h(4m%Pol-Ms
z%No)sa9O#*YFX#zo;0&8YGjYbTgsz76z(Xo0EjtnMP^zWFCiw-`fg2vz_w$?s;*0k
zM_^XI%O!B!c^e59_TH-qiMemfpj!Ixot#4Fz<Ncprl6IoS0z}mQuUe$iBzgyXHe}b
zRd0|}Xe-quV!&>}k5>9c-Tb2IxBW}F4Wn*6AFTb}=7(O}4jpP)+AcMNwz54M1uiT%
zSgot^cBp%nyjWgWuMZ?}yu19AVBzj^DneooJZDfXEqFmrq4nS;5d)i$9j&_1{8sDP
z#`46vJ`%8T58eo<um$fVM9hH?bf~2Pe^E1N{b#yG`L#15c!QH4t@>{wTHSD$1R^f%
zlTgOQoHFNNExod!=g_((qH^GN#Sd5g@<br~{*o<r$6AW$xEog@F6_p&jET81<zOw{
zn9*}+-I!B3up9Z|svBPfN6#iNz6sd46StD%eaMH63T+tzOTZ3R3eYg#(DW`|!ZeMh
zmIu-eSDFAVMWZf7!}Vy2u}EuZw3uYO?$9tkIa|99*%wb69RU><x+fuG8Xwc4mh%3f
zX3(|X#(+kFXFWGqo%QA&jjqFdWBV9J<4lIfJ$Nny!#2DWLNO;^v$&RK95Rw<{Wv0n
zU`txWtFAQO==6qRJllOMgrzU<r3r9nK1k89H;t!<pI=h|o?P;y)r$D61xxF%2?GT?
z%!;6XBI8|G_cD!MEd4c;z;SQQC0N*3kqC)(ye9_Lvfstz6k0bfi5S?4>}b`6##^wp
z%gw~ngwFyt?!i<*g)Nv%h?oOk=uk@ozEU%2{r5(r!1m(?tL}Rj9CsVs*Q|)wL8P=z
zhe@`pZ?ncqqbqXLWuU-H+Yyv<H;s33TRX_DAKSjF-}J;8(8kkjiP>QLX`0_#9qzyV
z)>!2>83fnZB3`Yqd3&YdW*u5S*WK)k=y+w1MO?V50~r(RJtrKjW#c)e=g|7`jLL!S
z$PZWDXnvvf+qVI+-FPLU<8HhbabY)(WK7JBw;Zgc8}H~jv~Ikoa$q;|!&Nt$Z}N`P
zt)&-D=huI}-VHoIw~1Fj-bB7UVm6y{(Uw*Vd3m&Un{imM<?Ik@T^58@-OnS-FM4P`
z%J6s_e3F6TKDZP@F^48BuBAQKj3iobK9fPPF)iX%S7wZZUJF-lWO&?_FETLf$~Pet
zbLBgWYv)R@Dp=M~ojpfD1x5B;2@z4)YtW&V@;0d%bTi)bXcTa|vxAkn?wPk2zF9>H
z_pX-L<zOw<@6mH;_3u+Ta0U3`Y7NXACEctte`a~z#rrA4<9*;n28LU~nGlLO@`A;+
zwB#itiPn=>WDsmhi+I(Q#(T!i0ujB3mJeQeH$pz{%UdBCHs-yQiaGNa4{T{o<6Yjb
zZ-a!+LHW_Dn~e8}UHd!sULb+vKAK9fu!&|OB<7$6gKBA?h@3*(*B*%&xT~?FRTmoX
z3paLv#PYV5x02y;Cnhp5?8Rpx6mw(7;#&GKXC%=&azh5ep0tQpUHK|H1~-{<E286`
ze3zX$K$dJ(I7^|ftgR}Y1lH9GpcJ+=eFJc1Pq26FWMg|{+uYc;ZQHhOb7R}KZQI5s
z`R@O{?^T`Zy4BOub7p$bGv`kKOm;HgMqH(ORdxDAqc$v|%Izh1p^+>YX%B7IKemY@
zZAz}g&)V8_kT6nP>5U9Qe)jaQHQlWQW(#sI`2XU%7d{RyTiEuHe<Fs|AA2ZXY738U
zyAvG@*mfl{GO{CZs!OrQ{*U1c{?G7wjl7u?#T{j)b1=^WMSV;TK`IH}9~H)w3&EL!
z)QSKW@qeu7R_&}-g-ko^S3SGw5bv&5+F;|hPF~5s>V8ok`ch(aoEl9v+Vc{1%r-z3
z+^fMZ+|o92z)DDXZl+`h13g<~>FLyZfa2wP00zWsFLBi8e;7n#Z+X`fl4X}E1LHW$
z*2U5v;v3awla^c2=zi1MufqIy1Mq3{D1DQ&2R6$%Hjk>m{9@Cx=nEi9rFZ5@CY5$y
zGQv?P37%*ECc|N$YD<e~JB@>FHs?^QqHkjm>oSY)<)BgfFL;ZRg*qj#zdx+xMsq#P
z<U)Ji3-$?VpJnw{baHf`@k;TWshx8=OXc0lbM7seA=R|avh#O2H6iENf4Bg=DtUNp
z@YD#Lsz~E5xDASf60T-Ui6+GiJ+E_;;bd3gA{*vJbFodLpuG*iymNew)I;gg{v_i0
z3|NyL@c>h#=0AHCn#Uego%PS&Z@K>zlC!|jps=f>jsFXkL88|VoB@db(E<1#%KsyJ
zD7#G(>oZ@e_Rab`LbZkn3+&PasTRg`XS+Tt9HIV83!p>UjRmIae|7kPiF8@R{{y&c
zDdXhy|LPRc?<>?#atNc`4SF*HUfD6sUtD!s-!`h$cWR_q<3>9{>HHK*VnO|w^!f^c
z6W%`?-<EWV6l7&{kxe9q`Wb8U74i}9=2LPedbEfCc@~PifLf^j_iBg3uP3>LSBjkE
zQL1(DIbeXB0`eliy?wrJuEa^!ad^X2>u6IzCjqO+P^NPDC1-jbL3ODcg@0zTauPOY
zNR1*&T6jQ+p;+Y~Ec#P-@ccKi6&NxZRqSegd{FQxQxW+PW_}O1mWX@CyTN7P^j^$+
zZD%RR1yZs()k?9zK5RxKm4N6~vuxOTkGmsC#sF0S$`lCfP_zm-lWv9sz2bfsKPjLZ
z&Z0woOn|{zKnDd>kVZF7320p;#yS98hziByV?^4xsH=@1Q{m~Hq>IpTpXU9bN`17N
zNmr#z`td+(5cz8ri{>~!CWSgHbs$ytJ#ozMD@_zbkZN^6VUzzA1~a|O{Y{f>E-G7q
zW+D6k%bLP4i!~XQj~fEhOvn{SR3|pAqMBR4rRykW(m+Bn2bTo!2m!qKd(CJkDkphK
z>3lSb--7x9|5*XYsclM-9*{LaSK@!g=2AV$DCW*`a)rp1<QZ=@{gO+^D~;;}Qvh26
z%`i9+SSyrTRCWg4Jd5lJ@Jc`z1h<M8tkVbBULW6}@wi018l5#rmFn?1YyXe?18x(*
zjz-t=oc1d3`<4nZ7>-*8bY5gcXGu!tC0t~N`X&Ea{RA>FwBc(lC~pZ)Geg!KRh`tf
zjtbdiay!EQB4^RbJftJvQU5Q%KUNR^@+(q*0oUwj1=zfbC<QbMVDsUQf?mc6AAg=U
zl)8Dbu^=yCH1BYpH&P<vxCBT(o9U3t33$~?OJBmWaEzBIO5QM6m|$fD8Z>@wv`Ke~
z;mgnVfAKB=B)=3I!+ibaDyRzk6G)fPeJ11xbiiwZYauh%ssE1&)864Q3SYf~SOGOG
zHNys1{cm(8BgM9dV1Nf^=L%6Tg-!&N9E4RGb|Vj^=IC?*yq}Pb1&TW9Eq#$<i<FL<
zM?L-=F4Fq@SJ^VwnJDwEphgQFVX<GcrSM1?JOWvsOk|GXY`nz$5mLBjVn9O>>%W<3
zdA8^wtLyI=4;6G<0Cy5OZ1?hzX|AG_kdU25I5RBwW1<@Nu-&vBbM;I&4>g5HzZg*+
z41)ff`h;%I)M2Bx(nMF?j{;uT*fvS|zQ9e{xDo3deq;dKI3H$cq{p2=m}YxjWn`_x
zPO%m4O>3(mCZ3zv5;!;<5~M$jaXd~tI7U|45oc{f?cuQ0|A+z8fA2a$eCCo*t60%O
zD4Id*=(q|I7LAsAl48O@h|5eA`_@K?3=$s3I*Nlq#OBiK`}?K%8f8RG?Qes$M=Ji#
zcpoG@`lI@ASPVx(BSYrn;O7s1t$k)J{IoZ1h)~uZz>=Q8xk;ctHE7`BKCO&9|H`Ys
zd8FDm!s|$$KLFtokI3lu*3c4X0Lry8;Iz1KhCLZl)t$UnlQntQc8?BN3A@FJP#-0x
z*8L)??<IvtNo9q#)%VS?P*6CEjA+RWb+L7rk=UPX%GMA((CQrgx}eMJxOYf}hj1EU
zTm<*IjZ|qPVm=K|7+T)<v5ih7_sW?~U7*pMMye?P819%ex{~NeZJKu7i4ZuZ{c}b2
z>hl3?0Yi+uD6WD7fWjj@|M(U~(q3fnVq-jS;lo6EQUVzk>Y`+z`?#qiXfC>n9jT42
z#kMtz9mcjbh7H8JBLXpsNt0Zo|6B!t!TNp32M_W6WVhGCZfYj50Mk7bp~A!BMb)RT
zQ9r<*19tT<=GuE^UKBJoWB|Rk;nGpL---aei+ZGx#$<BVfGq;rZDEl37{(*a`>|dP
zl+!4Fj3h(tx{v|z1qdM%<B1G$5<laKE~mM-;gnW(YtDM9IkPKEA?%Kc_0J%_qaMg;
zjyFyJfG&P`e0m#sHf_+_MJ}KNbe$5@Ro#|EM?ibajA}YZ8(28YEMhXcNg4vIlL_QD
zk%J1Kbu1V?{ErFA#augFU?@Zd%0yZ^kki9Tq-BxVi-qnQu*F$nMF(P3P&>NDTraG-
zo^LCkeUVpRk_H+Q-bTzo&-p6BZ7Qwqm5g1H&Rvt-Yop!~5lfG!M@LhoK2>v6pk)Tu
zoede>zzf%!51}3`V%1qP(Qm7eAwtc#k3zQ+BWfA5Ir-du3UI@s7jF#PPU~|p!<DM5
zqlX|SA-jRju$<?YoeZ?{9L4&owr}C21GC=3Nduv>j<JG9avBMLB;(ZD&;oScSJ|PE
zW1o0N#sKn$&}b{fvA#N}0>sF_3}v^QBWxNZ`iBpEFy(bE^}*rLorQmBvAq<LwH8-b
zv!~tGX2eCDw{SATVLOd}8ySAPr{LFRu<S^p>@oF5{bD03DT49gN36k4_^n^`N0=2D
zZ6%+Mh*&o&Gh2p!eW69zS$m7ktXH4|Q)gzz(;5(po{Me-Fj~B90HXyYZ?67dGd&k=
zOl+-h!uyL7_cN$goHoEa6QdK+Ui-buM0SF7_%7xY=F_mv{<{O?!6AVl*jU|EZ%N3&
z6ri947Ap&+@scgA@4k?hL|uJb3<(*9olJ>V^R$7ct<<UJjGL%&x*omG!Hx&EypEOW
zzh()AX=WIalCX}U*A;<uA~Uo8uYR`;Lh@sHacJitfgDHkto#f6Wd+AY=yC8!cqwo7
zlm`RIt;W*Q`j49}qZSPsS};5)^9})kE<|HbVnhsrW2)t&UA<KmIg@xzD4p{2t8FF~
zWfyc07!dU?wqG_#05S9sCnY)L8p%9!&p=5FyEzS-GAUHRjFLOQtNSwlZ`j53r168<
z_btv^##A(YD7+b+<EBso?&N71ZmMlz`9Kf8f}4+w_Tsudwjg2^>GWS5_nVL`iL}bn
za4pCSF7**KE&WYGPMx(ssaj3qtUP@)R@)#q9%*lMN6La%+eYK%k1!D^nIv(7&{R+j
z{q^19L|2GeetRP-*Bvd{-@>!JgL>(5i+CXzm7BHSH;|95VZDqCu`NBV1@9daE9aN@
z*Y|+$KJE>?6-rjnDr8D8zs{qov~DC`0m$Ob8an^QJ_URxCl<U@u<5*%T|Iv>a&4u@
zs+d<qq7b%uU8M(`2a{-nzKI%a%67WpeI;vG@aE5&a&6p>!^$xZy1F@cc)I%e;2d^+
z!CE&EFmvYV3)=MOn_Idd_02@;`gK;xDlL)vhE#f=Da=tsdC%TmAJ(fc`tBual5E?L
zEKDtGvx|=XUKEBma<f%0_o97IIe4kIzmBv%xGO61bhnC^S~l{@&A)~G_8DZ|sSQD3
z@1KSg`HpLx&y<K8nZDj7B>=?~|MwVFcsX&xQ{5mWXd9R5yZ9&>1vTJF<P8DHsEy9w
z5bQKRzr#V5+xp?cNeUuT;Db2OK_1Qy7x6bXB-nDyWu?LJL6+!JgWkVrb>1#0Rp9BS
zy6jU1paldudt3;l=^%rP9Zt*Sv?AMqwX`-!5vOlKqA^18ejy5RXQarA&okf^Z``nK
zBmuAm3?yrR!?$7Bp(S4V0>l>2FdsRN7gm8WaY+Ut(2-Bzu!w1}(FoO+S%XxySQjLX
zca}Az?4R0TDsrSH4)l%z^>n$Aq4Wxi0b}FH^@RrXBa_a7ellq0-1guqF||Yf+0Wao
zF!JaV2g$4BP%bs_Vs}fUQ!+K@Ol?T`BrBYxv|>SFYAPa8=g0H+!RI0z(>0IXkz_av
z?aX+OxclE;9A6S8!Ks4c!TIwt-xx*ZSZSCq2~!N_Y+C}<=lEuLF^W`Z97fs(z>I#O
zihjw(T|&?C)6xwz8C#LUGd$5n4f%Ygqz93XrV8&Z%m#ov01KFZS=5OTutj23PKBcM
zV+ydE>Lw5K&M1`4Vp}3zJJC@}Q<dgik8z}yD^gV}a|c+hmU}8xK9BG=%3i#a;2w?5
z_rg|hIqMEqsrn2gm+yOP5B-i)Cw}<W{D?G}Kd*_#zFSCX7<VDIp-Yif-SEY@6BV74
zMzRiK^a;GXNn3YISASb;NMO(2kK~m(^wy;ox3g)U)H)vAO%RY<<!o%uZ8)VUrtCnZ
z^`O@n-0SrX+pYf?!}|-s=htm@!!(dQ@pCRFe1qjfb^Wb^(o`*gsTd&cKK#L~)zHDK
z{=H9F3gZXVmGWJdas_hy{9(T4JK04pQQ>tE#|1&HAu(HLVFkrOnWd>~Bm+MKu?rgx
zrFZA#mNjzwwt4=>x{O-8-tn+pV#4(9YP!HmPrLM0VM8aT>&x6P?b;5?r{<*oO+jS5
z9nr6o9CahWq;{(AAAmEqe>OHrd4&=s1#>3@D$n_Nur?GEik-B?Lz*Vt-a!O)PDfuY
zKh*~m!c0G;vUO(3UYgllDb;G#!wTimtE;%@UIRoj1IMWYk7L7X_E!U2yG!eFUqt+^
zTBl$V`VPXau<L^L!(vA9(P^7ccQVfW+yTkeAZ41K$a~O;Jy7&8TEenN#6L)zcUOEm
zN}tHlNZ+Uw&)l+oB*!Twg=KyXeT}q;QOPM)v+%YquiFJS)3q?gL(G7m^%A1<T9_Kv
zb@v#ZKIXY-(G4_F{>Qb`CkOKL*B1kNb673Jl{5gGM90Qyv#logGmb{1;W*CY+Ei|#
zRA#~THA=MQTs?+{GckMVbX6~K3HEpm9k^jUhr2V0gYF)PL@*u<nCYME^ZT*Wdpi%c
z=<xO6*Ld%IT&>!E-CF4&3Efv3#X7@ihG=6MaYUra+o!FE0~gE>xiAWo50_mBZ3fMg
z`@7Q{^~VFt!w<|Cg+#-8ImIJ~5AJq^p16GUQ((TDW$#q3I(Ah%18Lf5UL%RF4`0$S
zXZ5IW?c+%vo*$Y`8IAXJk;_<OAUw@s9M}WPgvQvW1vB+IoUbbGmgD9>>YoEEj`rP}
zbsgl{3cd%rRzVhz4gzwKGk&{<M41U1)H)ISyzQu8*J>xo@M`l_)QNs5(+^iaK^((`
z|9Z(1zyrF<X&&)tx%Tyj7iHcRG>_1ZE4D03lx+2L`NVVQvybm#FC~vSP7gLKox3S_
zwHRumn*UT6$trD!C2f{>p`f1}7C)RQV7UxChNdw}oeT?Qic+)v2&{9tYK)<4-__2%
zk-Xd}a*7o@@*rM@rc7FY_YXLbYTZDc`WaFZ05vB4b7(X?|D?{sxygfQw+2mzlzUh9
z%J9ur*VS$SglU{d`?&x$#>P*ufMeP=zU3$E4*DWbWqi$Y8Q_yGZ*^tebA1j9*|1XW
z9UW$ekh;|v=c~hb#jJx~tBtd5XvMyDH^emMj3QW!oAdq&*Kv7&%5ie)Fc$fz$F|GZ
zFg!Yr%_FH0$=<>icksZnS$w-2U-Y{hSAblvIBU663JsUtI`6@{(buhjY%~N}^3~zb
z^?5J!Q{G&)8^-0+TA?+N=ylM_s#$lSkC7F6cd!1bPh;OG#g|B)IziD3WavQ-ZX~$}
zz74;0Df_p7C&Qjr{23SBL>!8x+qTna>#igB`@0ZZ66EuR?8WlvlYz7M{RdHOzu^YE
zm|peDZEthVvqmVv<Qr&ebz=|oy-?R*KSdhm+6#h|De=1Z`o9~%@P|0@mo#2K5(&?o
z1AM|2BD?-w5fkeV+ryD@8ns~ufO`;fqpqzz>MXF^7&U`#X>{j0C49vqP40e|9T$uB
zzc`I48V-A4_;`Kw&Cq>pTvKM&ZvmA%PT%eYG+X)BktsG=oa1Y@P;FtxVQo>imLd^S
z8X-aU2d&KPx|hggFBFCZdP>lugUqLs9rKXWz8*jI!Rp&0Yv=dn#X+zf@g+}I2zC0d
z_K&4*`(FDM@@_90|M01xR#D#Pu$R*j8xxl!H#}HxTGjyxPaook4cr2>Z}y=uZY)=B
zdj0HWDEt9&_Q`xSbeE6#%%01*6uOn}7}mqVb)F`R?mcSluhgy0O);s?pi=EItm1u|
z@yNl#u^pFx=4?inOwp0@-t$VnPu#g->q;sWV*3zXM#%Bxl21^{XYn!k!*$E&ZAiL#
zr4&xQ*tI1AgorHj)>syf8+aw2%7?N!13aF~MX(*u3$}=Eb0!><Z$R0X2_1GGmatbJ
zUg1bnLCIgCI~=N$I*+|O#f^%+|K1{O^cuA%ocgZ%-ECs#{+0<FU9lGXs8@hLOaI{}
zDH`D9*5?b0qd9)ucm8c-Mq*tyaeIFB?<vnu??-o=H+Y9;a^1e3>dPtLUyk*g6T)wm
zt%ySh_i#wYc*5C=SnAX4pzKZiv2EyXu4-D)cJK&_J&o7OZOXbiR49)rHZjUfR{gMS
z<E;a)F$_h|`x;B)&-yAxnQb#)Cnrm0JJg`PGoH{;gwlH9YMZvBCV|kVJ&)}0B~`g`
z&<b4Hx_1=mvz8)lK!~0)P}9Bw>kow=jrfzV)Q>0>lDK`{zG&fo&D%hKjwpB<Nfi!*
zIncjDAYjP0;EZdip|iOQcmz7ML9E~%T3kRdtc#E!;pqk6*@wvlGz{0ebI)5$5!U+1
zV>&&<D)tie9GW9#B^}1e73<jFluqc?AL7CDu5vKbjwQP7kJ7bU!;QM_lghPQ<fUpi
zmIWHJNw>{pyR(_cJx7|yq2!P4rv1u|dloNRwR;}_3N`F2SHlM<r5jgPrRCtm*fUJ4
z?btHITeJS^_S;z(Xvy0}BiyD&*a}X&b}d#<`SdJPzsa9bwz)M>K1&C?VVA^tlFl|d
zma9Dw&!?aaFtAARSz$BpV=Pibe_MAavad&(#`GL@IQovWPRF}tSz&|T##S3nCz=$G
z<HhDSOMYx=TdMAyLMU}o{BSJNd|(fIrjGC*H@+t6&Nou5Hids{q@s6-JeDt6tMOr+
zv8|Y7i+XO*r*(FSOs*?7o{`O`Jfr^^e2R3Wu8EqsZu6bj?mRQC&~u)C3QgsSpQrwa
zAIaDezWq^e$UaApL76W65l{|Mokt?r>VPerr_3^;=0y@c)krkgtezjX>)Bqms+)h7
z$Th3=H0d>%XmBi|25lWR;aQ}G6$He>>Gw4Av?@v9@mZweMi*6Z5|5r;C*B|dL>_5J
zMck`Ud-KXp!;y)?$d-ODrCqRY_uqVAl4bY2M$#57=`jV<(^b!Xgs;~<uf<VK?il26
zGaCQnHIplFe!J&>jmm#U?G+K#<_vM52Gy^2xpOteZfvhBPN*fW6hazwNCL7RnQ#Gd
z^9uwE7gAwtLPdg*y2RByi8Ij}X4Ds~Lxj~y|J*VRDH8!97us2Z#RNKpE=vTpL!}vL
zaDf-YdkXoC&4S{Ed&Ajw`Ia$3-q~A_NV@-7f>67DIr$ju51;KIoCt?Cwi$j|9GE0S
zkU<xre4xakjc|TdtU*Mw_X~;qpGDcmUEv9mQt?mZV~60%va%-_MeP(81LK;pii+Zr
zJ3<4A%OO0Fzw-SmY-NeIFrtJq2jJ9)Xfdcw3{vIAn~4)>#IR7s`Ty3Iga2eU7Lp_y
zra{7-TV=~D6Pq!k_cBN_2h{C%6vsQ_!4V``OOk|GyAV^>>jgATVTDvOgge#uFOjA6
z4wUnykjxDr5E(CwN0p$3#?)3JbJ5yDl{ZO*YTcJNt?j5-)EmvJscQD63*gkQKzpVg
zQMY8T^#-z~&Uhlz)>mit(Sp!k!Egde)b{Zewz9y`dUoc|ohW>ag*Sm4Ln2v7jop*Y
zp}XYM1*pzIH8E0@f`xC9&pqVrS2<o-Eyil%Os1`F2LIs+5(?w_Q*$X68M321V?tBU
zpn+7}ln_xlh==XqvL!?;>cz}8w0w>ffqDH)A!2^xFLDv@Zz{%(Z|8_(XygcY`0+Mn
z!=`hki1`;O(w$-jS$xde$@CcysU-%+>X`~=X=FwfiKF1$#gWD>1!SA_^n(jfG@AN&
z%x-sVN))tZPZ+}rM#Le9j=pPvB1?YQgXHcxPA4P8YPfKTRAIy-j6YP2%ZYuF!IRNj
zR<RqT<DSei2Usy2xg*}q(TcMU$LJxKH21b!^$msnuTSb43wvQtZH+VmXcQ@)*haLy
zk~vXXTxUzm8O#wIRm*J8?~JLMwt9LMM&dLs-1lwD7lnL2<ccU-v?e0sCufZ#4%e(f
zHKKMwqZdo8)rJ7z`5?>a2x>Z$F4h3;53|H70o!|!XMG9xJ&FPPBY3?t5AHM10*~J`
z;zu^7r~$aHEe8GgYT|N#WO5rlcn&+4;(1ZVhAp{J*Ga$ww53Cqw*(0NLdM8y*pVLI
z^b0L@a8?8hPbY$25M;SdX#uN9;m7lPMNCO~NI17UbMroeGdIu(a`HQR_opjlPC~Cl
zy-_cOc~_2l=Q$M;eqB|<>Wu<WCX#rv0330WuD^-F&K6t*a5>=Md&T@pUr<0^hG7PM
z3Cc#ykiE(dsjd@CEoRTWv6m8RPaZ-?wAR-$*cCQ%g<NbK{*RG9`yOjx(`1aH5u*08
z1c_}!U+()7VzW#2C>ijdc_<<n@IMsJCEL_o!B;C35k-MO3e6;X1hS1H+BDFJF`xLo
zUDZUW%ffN<t%zrW7dM{pbCo)7ZKIk7Vj0*?gTl&8AL;oc@>-zP`9jM$ME(uu^r4sP
zc5+_%pTnCukkAHrHN9fUPjoYQ-RrRZ=`rtApe9ppD{jkYzcCB<+wi?7RC?`ba7KvX
zsMp^*a(<b#F&syvgr>6|v5+AiQ}ZCvF;(c$S|O<nt7VaSMytVn7b~7pgI)-KOBAD@
z4!K*(Ib_d|ALGiBg}vE=I$A`H9T^gdl4Ep&aJ9D~jQMwIXFPR2ogI$*kkW1W>w5m2
zJrS1=1mnw!z@Le1wL$X^#o^3N>Oke_4kh8tMYTD?e2K@<vjdf9gFpZs<PQJ|jO5?|
zjlDU+^tGXc+4{>57vT^pXL*1IQ}Jyh0@q|0{#L%f2!$H*@ZO5hD<cHk=5SRC55|%b
zw2sstH4zUhKiq;Ryl{6@g5sDd5n>_#MTW?Pu!9PMz%WHfNVfx27#qhP48&hf1m^ON
z>U?+t5PtIj4d;seFR6?@7;#6Q8A_<T{P5~OHC`}7#^g6UKt&O~?0x13chijKLN*O3
zX?Br<%dz9K**(CbD7AL}1ss*<m@fZ%C_@oP5C`jIvf6w>qse-90r?);hY0O1$+#VU
zLNST2rV)kkN#+<cy@3Gf^nE}@<G&dC%pbs@FrT4qv*`7K7Ea(X{hQuFAqZ{o0~n!>
zP%wi8bOR`%mZ?|319(7{5G(wuLH{g&AV4iIt^gNo4CBQ+wy=OBm9dl(Dx++}|0UX3
zMF<~LV*p3;fGs7|5{j{j%a#$8PLbi9WCvqxuD8hz0uJ{Cl7X~%z?T-3j#12lGyqH=
z<Tkp&l;P3N43LZs);2wW-+xW49?9VZHh5r|<EiojK@PgcD;We79;o5ulX+l4QCTUL
z5k*dP(hJA_!8)NLW!r@tmbsYdh5|<><{9`G9$5fV#0i{G2Uk=c*#FCe0Gccdhk`%s
zleKC9RCMBo*;np?PsWgA&&m{?`Dy@G)D<lhrtl~rt)J|T2#U!{KLjK?{fp6G;Zc}^
zVUYKoxRk?XCmdLo+;0e|EJ^H7|NYBxQaXr6Qu#PNBhbZ31}2cpqYRvXhX*;CK+ZoD
z(0p6`NMLz(f)J3S+i59AfsJvw|A<n3pzw~(hu5R3bbQA<HH0{~2Mw9{wl_LxaZVRH
z%!0X}Zxry7?NJMW^h7}~$?il^CMW(F0ySqr8Ue_!{|JT=WTZ8!=;xy`h5RAtI}?Pu
z-GeDy-OkZ$y8iXaynJ1t&^rr+zTKlGg?>`dJ1bbz{+@j<Jh-hp%WkOu8K<TPJL*w^
z>30lzi@Q~)udZFXSnU_;h0{dr?-c4?61xW1Un(X|#^agC&tDS{XbbYb?W#LqOMUW>
zDhLPvx<0&{e@sm8r!GUOU%KoEfy>&FXVJKVHctrN(jar&o>CR+pS}YL?w}{<xTo$U
zSG@Vv)OBNmH!u!0Qc1RCIc`jHt84a_kCAI|^Jw1k3{v=`ktbTolilgT9e;~eeauBV
zw&{r|MV^X|7HHXqkuR!uzK>FMr9R;KoNaY#iT(8+Md3qB41UZYd~1S<JXlWr`!7<k
ze9=*X0^<3OM9-pCr)f~A@?G}h@(DH<J>)f}Q-))(-YN@px?wSqR!gjwvaF!a_1nZV
zk>8U2q{-w^e+@8RvvJ?$brss$DQty8Hcce=0b%HIDF4NFD|#oFgc)+Gs!zPeQ}Fnp
z%IWPx*Ph68#5!{Z{u;gKAOHJPocT_PJKBNU-_#~Md@ov+B>e`F=^ey%Jm5gR(^^-b
zUze?~0f9CeIB+f8YCv?n&>K3%3zMZJ!`5vVOmOTNx>xwF_@>}{+7Sb}ABDd<5<YMY
zGDr$Ux9T9c@FE3AZbm_cTAl7L8#Qo?VyevDgFExuY!@_eUwe1AsBfsE);(Jm!+UOc
z*}AjW$RSliHH<a_)_J$$(>c3YKT6Vh-+Ci|_%Ey#NdoUDXpixL2jE4avaLd~0h>9o
zlFO2@k9}y5lCb3^JQHPY(nE>znLULV8`~jik7UFC<QZf45NBQEWCJN-`Uo*NYVRo%
za4NKIKWlUmnXXB9^rid0kC-Pd@HXh(5W>U_oB{WngG2{wWe=QlH%Pwjg_bdV1Sqi9
zo(R{j$ra1WvlIRhzW)nP;tZMXP1jf{(#-Aty+kW@eu}+2D1YoTP`Io&u<QT&h8A06
z1+hYwgz|lekZ1#ifIV6hWV&{k?{LL!9?FG~Sw34eVYWpX$~tg$8dSN=RlsFj$`K|#
zEy?pCyU$*9|C?U^gu+*MQ0|JE0uC#(K#RFJvmZP(M{GG!3@$AqA&|zQV%AT)7)P<h
zFndwD4%w{1%$`JQ{|$D~LHN~^k0=EnQzC5-UgkWBPw6bjdLr5o8l{P=FT8NcAY{d%
zK|xaCi`m@09n};obY1<fkg^|JkGf;@Gh-mSqjY+{!r>Qr45}))?-`6PIU=jDfqEe%
zrc1>}zSceP!w*H3?i|;TeEh}JMlXc-u=zkSZ1pwPbM5{gK1q1rqB!>KORABRY+4H3
z)(-Ag61p&9$TdGCo{{WPi&O>8S-kw%{yx|amizV&gvdP5e>cWGU?Evit1+8g$d?Bh
z0}gB4xw8A7Km+cMVP_N3Srbdxa(@%UPPnb#kY%bbjh2RfJV%iy#9hV82XVyOq-sTa
z;6gSrS(SV$Zy<~87kD3BCaam>$Q0Mhd07QzBHf;I7*JKoyNzI5>oc4So=>&-R(&NK
zC`%B^DDZ$p<LTt~okOdUaf1{wbBwT%e4=l_C6_sh?1;m%2QHAc%09CbFntyX{`S9K
z_;SGzTnFihBNF(fsbwf)>KI^x?;ZwTMBD$2*k{_ywjQtn!Bqa}t8)s?Txum@i|o5?
zo1Kq%pJUq~PjqZ`i>jF3b+>~AC??_jgSmnvxyz2=k%t+bHIL2RTdUHbkoJ3WN%xYy
z$8SIT{mbE<WPfZhhCxty2k%GFqKvY`31WcT9_AbpHI$iUFyF*osf1e|v*_OoN`KPX
zmaE232h{OYu5$s>PIf7_@@;!3AyaV&)3#VPO1FtPuf9WC8%lBLZ<i4KOL|5gsyMw5
z9<sheFx$jJ2G4;jYyU-yWab5;;4H#RVcoyAh%VS5<Qzo#T;|)T8r9TomQe!~LQKTJ
z_FeM6U}q{m2`R|zW2#2XM7NswjmoI{W3h{_Pu^S<2jh6~Fvdnu8S_v@Ne%T#vF2Zj
zaeVlU`pZbpM_^Zk(}y<OYsYj8Lo3^Rk(M6<lIlG5gfHkqcF{E$E$1>TFMHe?n_uI7
z3#4%d9qg2k-q}diyY@xw{M+Gv=j-pj)Tq!Oq9)`O2w2^u<l7w=0wvk6+$4uO*j4q3
zD9V>+8mz}fL!((FbPL{oKP4^zaFpq9(4b#?)LLt?OoR?YAeoy)`nJwQd0<4sWuKgv
z>9sz~7){4oD^6v+vW}T1DW@AQZb!kvU)^d&iwbo#jdw3adS)6}!QY!&6BzGF0ms#~
zW9;j&!}f3dpCUW*p;5gU?Bbb=!hFUcPwR$r{i_dl{fxVB%6w^}m>l1QZX5mAe92^<
zEB<t5QXo$hXWMJu`(80Txk|~V&g+#dyO<_(aXl|J1V;(K!L`&3gey)dwJF5p)8=b;
z5<Ig;=~3U=yJLJiGm!m9Wov8th&U&Di}HWAE05f8q?LO?zUE+KoLng8GA9bJ?1x8M
z*v!ENT}B#vE~N7b?9WRjQx<mWL*OKo>sqnb%AtnPx$nH5zxj3*{bxOwAu)o>1pIDn
z;vgL)n882uc2M|Y;Uj8L?VEOf1^42gN?N+`xnHrS33s9#b?X3)VVPuRN_(n21T@8D
zd0(iE6Wr}VfPZMwKk?f`Q-ODwnH}l%b29|9?tnFpRI(`W*bC1MjVs;Oec+!ShaTyt
zcbPv?Pf~t)2DZCUwC(ZBXJxenyxiIlhBxU>rlsBC;uPe`F}kD+;Mq&vv>=;-$)=;Z
zPoCorj^Be(JJ7kKlR^jVf_Ip5KzdC6HM{@imc)ApoQDA<JQpg}BwECCXCuN_kOi0a
zwBz^zTLLH44|5%2x2{vL22aB64j$BZX$M2UgkE#}Ou$2b)X<oxb{Z)1_vV5&3QTr2
zT{EUYG5y(g@)Tm(({?z#1L->&U%L$@DRnW8&kHqM+CYb)NLog3ZUm}X*T%{r%C;8L
z{cD7{Y{sOhaDQ(^0VJsQ%^-3MzPYQXAPc_L-<ET`fOCIkk+#fBM;6iKTo1XO$J`OA
z)gFqhwHW$<TNVe5JUg!F_!)H3@ppfuVZEQ>8i(vKq;4u9!zbjhHAM#RSQrh|)%SH{
z>5YV7UD40QiebN4nVSSop_nc5z0fEIdxSs}?*o29{X~8*GD<rE9)j#1!r9^njQK;e
zQ4*b(m0OhmW?Jjy%r>zSD*M(lF<xv=rHE!tLTO?2(W1(ZM{t{9jY<mWXaUV^<Aj9+
zFhRsCRbEf%r>!boY1;(2Jm*rok5)fcYzi}w?$Po?7rUgsJ5$+P>PgZ!&EY$4g8g5C
zyw_aqJbB!e$M3<7MJNaKzl46bzgADOJQL?QTr&Jy_PP!u8+cx*r6d(ockE}7Aju4^
ziaX0#M2x$Ep^fINS?-d))#(>JNG|!;4*OU#KH~yr+q+{Z!a}chzhA~Eeuopm*ErGn
z>h&*11q%+9V*kZ~K7WdQ?idgQ*(lLJ#Wt)}MFRGm$9del&n<!K=D3Wj@glPT#FIyC
z&!Z><iK_i-LnYOFip77;B%wD=qR2iDCTdhaqZo@P_O(OQ?n`+8VIe(-zj2mmi!1t`
zDW(`V`mujcTqOC{0)2-y(R9DUWB8_}auN)<!DH@Ug{PL(EbsrlK^r2KZy7dQBucVH
zR`6`)hj?xlso`-&z)51G0rBNv*_F|#2IG2r22EF#7`?+Ec(X=TO8BbR?A=<7n@j(5
z9Y?6O@MIhDs+<@8Y6m@Nw$AM>x_YFmV*zHYSoo9n6#$EyzVvc0E~G~h#LTxC&XK)f
ze6#zwH405x%GR^k_Dz|Ykbe*9r#LB*0dcQw)V5Ii^Y(YwJ*8O3K>LOIH)Y$4nw|Z1
z+XJFf-|OfaKijW^zVoIwQ;aWB**SwiZT<WjUt88wwV&#Rwsf?T63@W~A8iCzSRVoM
zeOwh&&S-wKW8@@nMCZB$o45|gdYex$ew5siA<(nsd+~;O7q~cB#7wIYTRKZ;p~%?v
zJ|5=zhw&!Swzfb1d;`qhjRkbX)|HKXJC8F!HGlx#(JNn8&Q%bMD>oT^<@wPQxU5uo
z{gmS{Q=}fWjR)?h(Um<!&e8#T{`s{!=9dbV(HYR+Sk?K1K<v8ZjMzBdKYFH1K)Y$*
z-~3vl$pP<ywhUXwTPyo$gBD=fh~s~0vv$v5_W$f@$!>nPKTwr`wb;xvW0Ki)RQLJa
zd)L9H&zfZ~PVdCCwQWfc;Wn{nb2?f;&^uu4TWLF{2f*FOa~zyB1<Bwq$=tLpmg~<D
zqMG{`j5!j1Huswc9{(!5`+33-$z_lGBd70ydn)ow(IUDOcsSEI%>oFcv%%>`c6v|?
z`&Q&z>zUZF3qXS8PVN^FwIDRsqG|yD(~>3g?kCnoF46^kyKt40`D?TOkbkS*ky!}P
zmU*`-#ny6>)_y%wTKnG`x2=u~E77+5W;gBz6p)_k;jdMe{$C?f)tF0T+dfa*SP~3$
zYmv9ZZ)s(@(7Bf?1B~A|J+O;3CY3JjtV21t186U+aNZ4jcr*iJ*x80Z%w?VOzGnfh
z0zwFeHB|es!a1r+z`!Qy4QgD^!uA-?<qS=z-@(-XLWBcbaUC%uJ0|dlQY0Z`Y=w5r
z+m5OOkPoH=pv?Mw#TuEwW)Sjz-cPx|>r>6s>rhE2Rg8c)T6hUV`K8+MKmPkb5Pk4O
z5V9DnsEb$i!JviV3m4TdKm+Ze^wp6bPCw^E01e!8lLCa*de){-gTsnA2pm~(l!0#>
z4_X*~`apN^A$#y)hq{?DfX=O;i38#UN+h3zAW3CPoN^q{&Os9OmGE9(M_eUeMLE16
z9m`*aQD2~+s&be{j9{{CT0NKx2mbEFo0=|Z+CHf|dQ{I}xab;!w8XspSt({pJe;=}
z)1085igx&(&+yVrZ0F(Omnc`CHtS`%6G{~jbK`RKa_y0n5*<}vgW-O6t@fsP<EX$f
zoX<vRSX-m|GQE&6VnfqDzIBCJSf#b@6F^3nfOx;^8Q-AX9G@WW<@(ZSJ<Wcgnjf5$
zk0F_D5cN_OZ(O+Pj*oFkvhgw>H$iH~OrNbfjC-mJ07P!$;wTS|QaR6SJU>C=d#=aA
zxTKI-?@Dm=Chxu5Be1k=A}CqhV4;VL?5LznJc{?yI$3(ZgONOkGw#44u~^Y1;9-3m
zJ70>|lqd`J`gOKMZK`NDR#vP83tps@R+%WPGr$evZYicHN5m5#+v9H}#^u3dW?><K
zAPdjs0aELU9dFh+=C3V{<NR<MND9mKP6pq|8n9KpM8;Nx;i-f<S7zTKTBa9~m3;oR
zr5%hF;=9&Fu!SxK3B-*z0?P%2skIaB>@N)0w*coq8|Msk7Hsjd3Fj{*2<e_6H;)9w
zQ-WjRB9DY@N(EYtr5wz(yMS~ths6~*cdEk1F1&^s9V@TLYZC}Wl|vc|wYeZ4y3RCl
z4#iLt4od}2WF}$}Dxi%`303Q0n6KdREJ=q4Y>8MS1qxO(w{MgvGmW@cgTV~O>;nYW
zlfo3gU*egU>`(XuRm9a3h5+o<7+;cwhWBSpv*%7ann=7zDny)V0a-qT&@u!@5cjC3
z0TG<>4DsGFNB*^@hv_-}Jj5SJ0gh-Y6XhfpJUC~bNS|QVLAnWrhTX;LuYkOpIgBvE
zsz;_E>YZ;2mN4`y{sK|thmJE>aQ0|4L}&UKp?MlYzh5YG_%C9C=nV<~Tg{dT;E}3!
zk<3^k(?odfIH6I*6Xrl|8zngLQKn)4CSoDD3g*fn;0W?iOy%12NI?}Bw4e(DCB|~m
zx+sO2)KE;Tu}S8kd`%;?AWJEgX!zo0EW<83BO}fhQ%|ZD*nxB`L(GeG?bajF7a`m4
z>8ro#)x%$|&TtCw7nY92(k-E`I{KI!gaJr{u-&1Up&vvHiZ6yVqnbSQR?!BAqhJs&
z66J=N8;t5P_mOj3AVsd6Ej!Xl?xw*=az;JZ`DY((jw6qB1$h+FDI$0pLL(CuvDSY^
za!9eNHsA$I866501sxr3dl{j$&+MQKOAOc#@Ey3qojJyYftbX(tvW&pL)_yhF^8%Q
zlvD*~Anw8Zw7IneMasXU>bbsTiKs$=kd=$nwL2+(2cA(ZNRc~LpHn>KtGwC4TQ-e3
zj!Z+l=pZ}CiMfN)O3NPsL*8F8m>=>E1oGCH>lR{@nmxJ$uDh%;<B3>Hxp%8NXv`@L
zRq4u@I47&QlSEeP2y;Vam3L^7uHg*WZx?xHlIIMHJRI>T%obO$JKZtd>`gyO!xWtD
zttFOCwJP66aG$AX%1Ab`vdSLHl4m-qMVtka=5)dC0+nGMnm&ZzTNL!_FT;ryX%|T;
za<3-nF^sdawdaHWO#&T%SrV|BMahA&3kc^HQ;V5DSWKy#PQEq*1q;JwU?`{V#V&vT
zCBHncz<xR>FFY#&Phu8rnvCeLy{tl^TmBp0enq^wzgCPNPhy^gC>=Nv6K`2w1M9a0
zZ+IdH)tR`8QQET%t8?*5azqzKc>*eUnPxz%xH9wJ4VPcJ7AW9!TNN3y4!aMM-v3VK
z*S&mYsG?S6#fi{zE6E+;d|Pw@%uY^A!E0_aXXu<!6L7vwck#UrIN!DpR0)5lie#F;
zs&cLjkZJWBbl|Odw=B_Sy5D%j>6B#P9h6*v(xrnbdtMY_%eOkRkS?26GuBiDGwE!e
zE3(OBfdTuPE{za5enx-)8sT`KfRQEcWgkIGz$D|yJ<w_fCRwFK_b1dEfr)R5NB19M
zT84;U^IiuEoWkZ7IG%{bA4j1?A=H!Tt`8*fnP7_-UP{I*J{dq#B1tGUf`n#rts)$c
zDS#(Q7&QWyD1J&OidnkCr<PAq8-q#aC};#BUG%FG7?&nwE_WcO9D`9!AutB7bi7jU
zuV@IZGPu7kMXRDp8^cb$zcAYxXJ8tH=@=J%=|eVEU^*m&b;aFa>$?~tq1JbaP2^>O
z8mt3e!JS?QPLhy*>Dz0YMaL{=(*Uk)%&rOuP}{{$e`jJnD-{HAm<y}?m&X-U`!0AW
zt@H;r?O>-ebC)BO0gP-a=DKlN&lI#Kvc(A)%_L_NlxgQWIakH{tAY%xO=EJwNdULf
z1YCx5qdq{@%zj-61w>P*aRpW;G7XSv^S|Ub6Zq)?QNM;H1XFmKU|=nwq)|7vxlC_H
zYIB*3bbwUU6hKPeG+0&4wW-}ib#H@(ncCiFBm=FD?R|<E_ozT4I4GIL%l_nhhYpvd
zVm*lYmB?*xYE&I^W-DtefVuU8+y2<v;+HIL$3_ryo^wY*;K-ver0mhadJu|*!^>XF
zil_+Ayy35zTx@Dak(IrxX*3(d95fErtzii5BwI5;!n<|S-BthkVkaBxEPgiJQUkQv
zICg8h*UR3O#vxnLER1&6mKki##3OT%(@ya}jeezupQ=5|2!GYPrD9MkcP8FB{M;$j
zrU-JTfvWxWn_n4{=HPPUR84_pB$yk6N%e_r_f^kfi2(qvglJRXDl`gfzte6hg(k3a
zBU&|3MMRV<5cmENI?%GSsFc5rX%U(L>-aoEe&Ve;xV(%{6G*wKAV3y{cp50o%klR$
z(TYW)Dk3*l5`c^+nTGH5@JM>a`w2{tbuPddv(NuWPX8lc3kb&KD2sq!l>ZU_MYx6C
ztO^ToCvvMrm=jr$G81W7T}VGW%`&_x+t4z!sT^ZD?)2?0IqGz7%6!xGqObLQRROog
z=qmr4lkg4TZ3&EK$O_|FP2g=A;%1PJEICVXXZGeLwsLS#){Q)SO9(E$crQ!vXBq4Y
zv?X?|zpnCbNlMf5K|&rCs`|U7Rhj*=2&T2z`v{O>C>qoLVPa02F?GCR)ZNR`qw>s)
z%?A&?eSeT5+R}gz0iYGfTK^Xl>dl64gwmobDRG<Ry7W`zcQheF%kda-!H=)W`iMZ?
z^IrY9^M^lhj#EudagmilP^bOB5028b5TEDCu)*P=G}Jy14Z}#9rov<Pd#!)Z5Zl^e
zMX>sqoc&1R2Eug~n7`Zu8oVSCrAJxn{0;29nKTtJPB<q@uR7KCyh+_N;y@t(0ne0U
z%PNS@)_kloMa|S)Y!9I#rDtoojrDpGLfKGYu$>|4b6{Bi4K~vJYNtWR&<o7_>G{go
z@q=^?hHjYjZBOn?N7oHb0uxy>5mW|l%K~l-_tS0!{{gD)lR_>S7|{s6(t6R;57uYd
zNK5;L-tnu9!R&58(!kayi1Q~qBC823Ah7b&K-6I@GlqV&_H)z=3TRB?9}Fc^6>cI(
z0CAW`Xlc+qMcq~$qiM7_)wjt#SfYEVc{cG+sV_6k)HwM?sD-sl5mxNiw!_Rqjy`y?
z>a1j)`_`hURk|8j*|B#RYSK0%=FD1JesGREmIqjh5d;;?i2s{nW-a72Xg7k@u!V1+
z@!Qup!&I#G8~M0s%go3f?z;JE$?jn#4dmxbuvUN5w>mG!IK|C6b}4}c*spEETs|E$
zk{0N5*>~o25)@3@Z^+I28B6YAF4DW`LtJlQCfMfH(28Vh2xe@(6;_~6GKSuu_-pfH
zt0J^?uxN;{9ahfGsdyF!yIOF5f4S8dr+0fe-&PXms_VG4a3QynC#M&2Ln})!^qfvJ
zK`3J~OU!hHGZ)f?-&$-=#)Eryno<aoQuw{T)DZqCOE@vtHcD74OkTek%&5U+k(bVW
zn+pg2-Nmu;>+dcQ+%(@4OpQS1)sTP6z~QftLk2Vh_3GijWWGaA4;%RMK}rA9;3jQ)
zYH`xB){S9=nB|z^5MnGx2w4`G;(WF@RG$S=3Ao8vWYs3x%00=_1m$BuA_=b`vJYey
z5zhQW3g&6xmxB2C5JpHUto<Ec6x=7wN)_5C44rUj!j>YeECnlD_F%9aFO4-Iwyhi}
zeW<3A0)`y8n@o7lq@Y4{K?PP)K{c#Yh(I(Ee=Lk|SR+OtDc4}bo&-_dEyCAveJuz5
z)F2EVQ(`lIl8;p^U_!>B@=|U{N418k^exAQBWo1QW$9E5xp=8nSeAPB*TmCuD$+%N
zDn?^l6J0!!!OdpE((%UA=3-B>c6q>{B82)&9#So{5I^>8Kb^N?pC>k}&$<TO7@E~3
zAQin%z@iGWSf2Io?WK}Les4Wdxx|OfdqITpa2a|cMuDcdZnPzlheAcj(ePh7#dX}T
z7IhV21olW(Uh`7;>PU53bCoGe!OB8aSWUE6P5HuFO|(wUxr(#pU}PH#`oQJ<6a7X^
z)gf%H=W2BKS7Bl3t)<RLeW%VF6=5yzkSg@9>awLhgkHD=tIOq(4oRzZ0JhboRmqBE
z0*T~S1hQM{5UrQ<ei>}aB5LnCaB`-Z<aCA(HS4HkJ#&z<#f-E<HK&4QPxcrqK@GK5
z%8Q9$<=T#-g<fi{<h91~#3uhsUieFH!sct$d^!Z#-A&~Q-6Caz&k|0(eHEv-`ya57
zVNCYd>fm*}iHzE`lP!-W+x@OOGDerc^d01|?m?Nf<Twd;!plYH@kby2n!)F+wrjZR
za%VU^t+jij{a%+F*pa$QNe|II9uqrHvCa;?JdsnN!Gqgc%XC($*<$0?q)H`AFJI2W
zcQi@aIx5^lY;^cZbEg@!P-6})RP3Zq22v#+B)AmP@gOjsmZ$i%>l3xO73MCTwi#A?
z{lvX7T8fCqcCT4Imf=uTwX{VMw3;9PcX}I<Pm$?8@lYISVu#=a3g<R%Z8fGXa>2G5
z1_0`71UXj37%`6l35p;|k1@$#LS#Kds88!iem2r@7YeLPdcmqeP$L`KW^PqV$i`MY
z>3%+&1T;Gws^lqLbYlekbk6U-bV4VTarHd#dRc_1W{)XpL>uRHNv~f)0%o4+GdD%H
zIEtYdX7Ca|yOZOryDq<=OY;2<$c!n#;GBqp%$azgu~b1q)yLwYF>^!U>irFfjNOqL
zNd7=1Ko|dkn2(+ahU*1`Qy=pOhii}D*XX+=Hcp4e439V17_?s~vx*UXcBj=Z+0wwz
zV7oZ=SSR&GSWk^8efMzg)=aymu*kN7PJ5lrJg_7>3Su$F@gAf54Hfhlwa{n9fvbVw
zRM%{ztIYm~sprA7Zr=-Tv|x*kXH3k^V^!5#m}~lOt(l|<j=PqCtc}O5h3;O9k4u*x
zL1p>c`tQdpl2}ogJk!w0T@<s5a3`d;VPXvD6kT)W)J;|B;Ee0ipSn&Vec@`qn|ftd
zqE@sE&1M}8IP11<dWQt^yR@x2y9-aqbFNmTkcf^7zxWEjpk2gvQEHd{eS?ABjMhu&
z!Jy!6e;ZO^SNBz=Iv4fs_w|)UP?02V<=S249BAEwzi4~Q2}e`9oJqnbI?g1NRzers
z>YW_)wP)K}-;N~1@J1Ml(BzI9#43#i>zz6$Q5e_fbkqS<h<mG<CD4#UF3?6!+*~nW
z1W%tylIq=$6P_Xo&!DW#m%@x|mzW&~4ACD6uxzI=W{Nu+CTQUwf*$G)ac35XPS|Eo
zt}W`U<9Qxwd$uKuYTM3@SL>JXW~U4yamQZ;Q*3d{*zlcGInKF9oLLNVLmJD*LU#lu
zdmdKDfBr!Nu&FdQ9S=BAtKNTG!*23~k^ugLCpB$tTG8-Xi2MfvzUAl)WZe5}f(_Bj
ze<(2pl|EU<EpPGk4CbGiFYoTma&s}ar<>f(PxiKMKOqJ9Xq|xi9YdiA)==#){fJ<a
zqH|2&fEsh?UvJmDw*#k^*aJ_wJi9Rc!(c@`VTn`=eaBEQ2AEl8yYHcOkfcylf#Quh
z0;I_>v=0W#`f|f(memhwMA}HdJBi+sCB-8Z@dD3=f%O^MiLj6YX*NAVjH4W5Py?cG
zy%EWhDG^kjhu(B~ANn>Ltf8iFXZCYn2tJX=kn4Hf7g6Bw;m9zLadFbp5GmQc1@quL
zSV^w#0tgdNwO)Z{egRP<+$AZIzaEHgf_pM0-Q}L$=j?UBiK+|}&9pm{aNK6$NmPDa
z`(OJu3ytK|TZPGxD$HqkG>~x8O7{ojbkSkbj|=L&gv_P}|Al>S_-(N~iLh3ahR4L1
zC{M_~z6<-Zg_5(SX7a}akw$k4#!xe~A%z)IreH}!b=qkL*ONmmU8Ddq5fhHQK=3MH
zNQ`SqjBDe6A0aLz_<<!*DHv9qslx7|LZ2a!iu=Q$k)<(E8P-tmxi^VOPf5uIJ!AXs
zfS1FV|9Pg@pEm<WqJ|GW6ESm_)j#(mvS#iDig}SrGWJB8T^O|8W$s2YVBpsJhk{<{
zgkI%Px<o<t2UAz~Yf8v%6$xe-=_NB!=Cc<*1qbhuQrHCth4w#?go{Wu&QxqrrYOeK
z;!WcnOrv)dlV6P_V5wk>?>@frvYdj6)fH?JW|I|6Sfoca_XS44$rzZ$#=r+~sH->|
z5d_GSB|1p%o^9a$yio{(udUKfL~TrA_?VwFD^Hwg+11z={eCvTRCxaR133u_sLZNE
z3#Uk5Zcx!JtbfDmAGNnLx+e!rx-5%qj}5h_$$T?(8~f(EdR{1m-odv=qRJGh+{x?|
zOtZp?*3xq$P0@kH>(8_ZQ^^0#gYbo|Fpo{(DD|bguaX~!Pcezrt+@4y7!xTpv*pdX
zD2DqOdW;~&{C@$&3On_Gpg#tf!1ORwFUJsnU<@XLNsan02<fOMZ>t{T{?u|@SuS#R
zgJJ5AeSA|bJS}c$H;aPqEZSFP;d#b55m?&ZUJsrtj!d0KARiP*cTAqw&TO@93|@I8
zKhxrC_to^>b=+8)=VmVvgooCx*79cicf4ACl(cUM(Q#t(wwd^B?MZ!LSsM%X0sM3i
zpl=5iHh)z(4T~Dt84}D!(<YhH>K@)Hn+DoR=gCUdZUhQn+$UZstNZs$%(y5gUy-Pe
zF1Jr1dD@e2y^x=`Wao?f#F7`w72T<U4&Y7;{c_k#Sf5z_2k5Qr+o%_i1bEt|mD`S+
zFc5~-HwvdLxm;+}rrJhTt4eKeMiVpHSb&Xe6S8k#LlSMGcBR29E{xE8Gvhh@!1vAe
zxOJtKgZ%VFPoFpIM~I@%XaOw>qvNbYV=0PuC~DiFJwU(Ny7N=o`tf7&`_J&D{qYl0
zp$(<dk;$>b&Yw2#h-%z5lz+RtoWbH3B-WY9IEu;xnvJTYAiG`{DSUvCtlmuNjYzWs
zEnfqjVE5vPUxO8?z9oZ>R_p8Ar3z8}T86CfUgzHbE-f)$?)|N~P3k?p`6suq25n1T
zxOm@abWq7>>FlD&=CFy-x~2+z9#TEeg!2nLPDPN1Oje}al{tQ8Aihm8EX&?l?Tcm|
z8fRgU?hxi79@_)*T=yUsNkb|K%*L{X#mvU61JUVA5c+`C5tRsobF>hC;apmvwsS8N
z&6&+bL%0X$=Tq^Su2;fM8_Q=54wu>IGlMpMYYbt{W}=%V<3pAIB6QpOEn`D>a>A#k
zQjZA|wrncdHCoiOQ@mF#J~qh>DDA*^Z3gBQ=HOM@c6gb74wg2fuww(Z-|yv#&1JTh
zT}Z%(Ye1!i|I_t`kN!u=xoo_+88Uw==TG+B#F@jIpjS@%ylH5pBG3j%@3}4#$)B8b
zydc*&n-+m>Jq;JzdXgHh^>W@aF6VXdIyYSV)hLiCJi{i=i-(G>->ZgBK*nhE7bPJp
zq=<3V3wYYKT5EHoHWZ!yBV)kEACuV0rjus3&30$oFB%1etr!r|!%6z<D==$=!9g!i
zW@6%S&b{~Ob#*21*W=CO?vdXx{D$uy(8HJe)fMo(l9CwYFs5W0r7+8$VZ8N%9n5e7
zIRZFA1)p4p;5Sec{A3gG3B@D7p385(lPxNqI7Kjj<kim&+g>fN|M~ar_x$N^5X6Kc
zpK&_l6k^Wix0K}a^(d8}Kz=`wEC++jQG@db%n^l|y)6pV6mns9QJdZU@p*L9uAF{>
z-V9&?0A|1lGl24vf9$c!>P$iOfZkV>5*n})7Uu9pEWZX!O1<Y`HzWNaJT#2w)nQAy
z;d5pJfBuj|KsFXG)&^)C0VdKEzoWzeEo{)!)Sp_xXMqhIdowGzo%7hvd12?guybBm
zIqzd{8d>2ZAPNh-u(U7i><3l9w<D1HTM<-!-;TgG1Z*7w!~Y?RRt$u#2EtYYVXJ|#
z)F7-!qKylouw|I-8`6qGSW_HQ9?24KP`ouDY3DCGuw&|>ftnev_z^=K7+GAz8%SX+
zpBt!p8X9!-HE&W1wgJ5Q#-5AAt=s|>g}q<Lyw#lJBo}3HRNtW-l%Y{r@Fd^%CK-w4
z7AOIb>mu`Nq_lHZRpd~@s*I(Gk!)w+aA$O>VqOT=RCFeaHwsHVP$Z`w12uZP2BhBY
zLf}oFh@dgL#Tg1p$TzkmbJ=xe7tR`<^=J@_y5E1N2(`Pe4(@a|TI=}U^y3s$#zD0U
zvLNXVBNLL|h%z7<7$EvA?S8M1?sZE8iVSw!1nW?Qca(_In^YYG#2H~0EUh`+0Nw7_
z2JmW;mTQ7J!Rh!gpjad*!#O@K+a?@!OOW!gTxVJw_f>ta)er{g&g^f3Z;5CCpH~YW
zg%%E+wq!9nOP(DC%Fv;OS{2-CE>%dUjg&zKnskSiD$2A4dILxqcsgoc$ARDE_M<&i
zR3U8{RWWnOK$X+$!lbGAxb;wloyz~JGlo8^b{Z1(3!jEW!V%F>In<P?U!OB%8Yq&Q
zGC7M5JBv;@i%vL;PPmG0u*_;oHBjR*q!RAD63)CDF3Fm54VCo_xdschrd$qV#4ckT
zs$v>)35R+Khk6NzdI@)Wohbktk_m@o=gPu{Y{Dhm`C_pVUng%iW3bJuX7(ACll-n%
zW9H-8<>~HH71EJi8PtkU6%*~ZVaM&GGO#15;<cE`T7qIh8KF8bIScRa(Nx<-%C(@~
zi#R&a`N3*T3XThbG|>JeLC<1cD+E%EvIO816q1PI9d7EFYE)rLXsly<E{YaJ>%d@k
z{xD?f)z1Z5LymU{WcyLk7%^*(Xs<8X)-2;!qe2H)qYkD%b=jNNK?Bwp8ore^XgsKd
z`DHyOS%zZnP45d%?kmMOp$jbk0Eb=ss52*J@wOlLXPl6RiyfjosKRevTHpTkU*Om6
zEc^mO$w*><hhqN+itG4}mG9LmsMKnl^Yj`;$)oBGc<ryfKiM7J-T>Lr4xAmf6HiQK
zI^R=B$%2HEGFVo>s;9=-^a94lyQO~-u{-A)9Z7wiC=aKB=i*CqK3`&1X7HnWZfpcr
zN~+rlFJUKKR`Ynv%IvaZ)of%$`V*(RuF<6<?oK}KxE9Xh>b2vQVxps`)wMlq&(o#y
zH3*xTXQgFD)%RN$tOGia&<0BVVxFKBicIo1pUvNmjc4`i5jv8@PG|=-Ni0_^SJ_Oe
zcEdnNv()t7fR2%k#^nI@g?E46(wWsZ+Go}}Vc^SzQBPZ)FkUWWs6LT7F{FJetT%GD
z7m4K8%+`rz>ok^L<7XO?=xH=^uI%HytXJ~7zgnj{HA_dh+)ZRX#d7`g@^kcYUM{{t
z%H{rk^*TkbjRm53Cac#T#GT*621<Lkdt#SPo$k?7#q(Z0A*e~U&?XgQ_F?p-VWvT-
z>%<+K=*1u`lj}3%^WC1-n>4&%X(HkKXCVL4nE0?a;Y;f3^M4n?6P1q^oCA2;&6I0z
zf-n?@vwtLrTs{io?4o3uE^+&EQfiGvZnpK3{rXXzIu<S(9a~5UDd~HjzUS?M7vyb5
z+yRFN+u(6XhXdqxK~Ykc5Qs2giRuYk2V)or%5Z4#wa-%=r*5|R0Eg`>@I-}xImcn>
zW3nt$GEYjoYNd7%rF9}xuGOAKQ6|Zf#$&-Kj*uq~kHeSUp8fW|eTv4fppk@8O_tFG
z!-3!iNy3m4p}RXl<Jn%w+UrahrLIo*%ioNd@=hZp_6`cG>%UuFQTr^3knDp<*iSpG
zdG-_Jwj7huB$G6zl;g6X-Pa+r)S+{F&F0DM9+c5oP0*Zglv#YEF6POPn&z8_8?;My
zt;iz$M;6(rG(~=6NLNIOGz}#UDgybaorxVZqj71)1?CHFAYbz9IOaU(ig9AzH3<ED
z5L!0=UqBr4NLR$uyjMJNVLXpqn^AQn)I5fw0K{|)Twp(>dx0tPP=yBHKr3}KrOsEl
zP{}FUBucGk%tU}gca^#-U1fVtC2D)g*EbY0E-ZBF5RY%F_6gC-^Lt`Oc-o5(@+)&L
zHaD%vD=)W<Fia|mH#9EI%S_HsNsZ4;NzE%UG|DWFugFY^FD^+eDq)N#sNNK+J~=<H
SBr~rx6#(SXBwPRh0002rvxN}=

literal 0
HcmV?d00001

diff --git a/default_8682400841892545181_0_17838.profraw b/default_8682400841892545181_0_17838.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..9ea2fdcee8c8d7ad5c095faa268d2f8529dc44b2
GIT binary patch
literal 418304
zcmbT<c{Eku|37d_hQ@2kRf>`!MJQ7wWiE7!xFSSCW-^ov(Lfn)6xXbbMTR64xtWW&
z=Bp^mOr^+J`F+3Z``NAaJ>T_P>#Uc5yuGW(+UL3V+2@>lU$5($#|2jpH>Z_#O#kyG
z^q=oHHvQ*6{`0L$_<#S5_opwz|MNH5KmT3%?=Nyf8FyUJ%1U9m@RWVv|5aA~=YR41
z=X;s=R!ZcYUAIHWUZz4H@wbgK;s^fwk2pz;Q<CL-d?)_S`*QQ|zKQ(*{Imb>H{_$g
zFnl>_O>o%T$H<`%{?9nkpa1{9W1V}q2e!GD)XgG?3Uu1FQ&^Pu>INXk3g|3{S<gCT
zo?%9gIM9i`mYb(x6`E(TLTmkD>p46<fG-~wOmLU9uhqAOUA&8&MxZ0w*0Dn`Mq39t
zX+Y;_`tG$XsW~^0;|p}QFaFuluD@X(IV7M%J#Fi-dQ5_^?eI|Pm6ZqC;y4|4OwJQ0
z$9s9!e3?Lw5YX9Vce7dBd)+PM5P?p~N3YMi+5TC`Apo5lrL`i{7J?^`!wz%`O2qBX
zUf3wjcc1EOGacg0gwr8la%OMtZ$C0*_7ORXKxd9@e!<}S1y|&_0iEg&q3n^k=Htl8
z0XmnzJ+jn18u|=513+g_<O7Q@v6hpO%eO`;UCw$$ocoVBCg;AUZ_z5NlWLJe_|J6&
z^Vj~*k64F~uVV2)*6nS`VgG_}AHzDD!cXO7%o;|J!!!hQ6e_%qeG0G>M9u=xF+Cn!
z_NZkCMZ!xWx$erInCW4B<Ke_4)}I?H$^X#&IC7*%V9u2TTyu#VmKKrY26Rjw2?-VQ
z8wv;-mnm%V?6_Kp)4^VM3IvW_%HS{%MNTNtiRjwlsLVauh8!!PQ$s5gX12d$gB(Sm
zlWTSF6^E}S@tD>N`J_UoHw2sxGiKg3+KSBBPVN4T96HYRgLSw}p6eI5#ta~b0(6eJ
zJ)P3Ld|MYeB%q`ICiRxc-v)l<5P(i?gxy)KTK-F~_$q61&nJ4&ah|8xb!d4<qifqv
zXA*L9fR0=9dG16@x)pMQfR2EE@Z=g3f<AJ{Kxd7}^Ih6oLIsf{4RmUimX8eFIk=ij
zahp@~wtf59aXOgC6sC=jb2cy(mG2=(5$I&fq!&N%ZstIaJ<u`Yn|?dfpP`2wD$x0O
zAkWLn`qUcaGy<KRwJ%k&t}b}Exe6t!i+A$lz3yP2ch<=N>@|wbT0#yD=XkKrrF1FF
zz}6=pkrN7Z1O@KDBF3EKM-B<-<c#r2>i)JKL=F+?{2jL7bRD_XL^Up8`#ZhUX#nT_
z26o@Ly<R@<b*p<Ka>{^C^45YKcanB_BZmTXGK?P_;@UbK7Wp$-()NW}mOV}fd%d{*
zI!-`ht-2&~#DPxek0QGHsY?%#Gluj25Idgk(RXv}2qQtr$pJdeqF*vNFPPq>gok-d
zfBa!>4|ICdciG-AyWEZ(aiCKh=|S$C)w_Y5F`W0|*nC1?w^d&F#%M-P4$!G9xO>I(
zrqeQV?19cMXP?=plCp2M)LtE#bFg>A`}zj<xSE%*N#2Z~QAf@g&gUJhqmsATK-)Zk
z9XWWPzpzfPeNS9%_rgEN9yp#&b{yeV?e)LVc*KDYVV<x?Dzh$eUCruYVLiREu}}D(
z3sz(9Gq(}iTYL{Y{Bz2HPLPnOfQ|qAlW07lKxgm@?@bqvf``Z<1Dyn;7v*yg@3|sJ
z9OyhdHvXFRT3sLUY=_UA{10^tAMxdkT|ZaVSGlU4S`bH08PNF@Fs2*ZxUva3zCdTi
zYVT6el_qzC4}uldW|?;taXQ%hgkP$xzr8*<{d1Ur&W-0J&8re>nP@zX{rGamj^`);
zE-I69t}}8dK&RIHM2=z)^)+(HKqva6o9?1`z^~L9UVl!e*D*pk9qf79%_d*{sZfd^
zIn#ak^1(W1ue*r7;;g)l92(HkZ8kX3Q(!QG9174mH~!Q)dP)4BV+C~TR=iI=Tr*=4
zRID<yrK<d^G)_kVvmfrQtQb+ZioS-NMxevGKBCuHKXVmwtZ>ddc04BE-|jX!<SBxj
z1)y`|kpJ`wIguAR6rATNc05jj%d<IWQz|nf`usNYMIVLkt3yk-s#;RNJw*=QeHFW&
zubA8^*;&2Nhnz;7$Axv?9&*_g<5)@BCKb|_(q`97#pz)8AHVs=J+hiXddRT?Iy$9y
zuAGo5YCw)S(6QhStqP%^5=YK7&h>*muJ&&`2diJ6*UsAXt~Nz>eMK42;ca^vt35V!
z3^_qSC+=*L8xQ-JZOG99I$K!+PxmQ2yMr78(D6Goo@-*Pa}GHSocjhgXZ0EmLEl5O
z+<kX{N}97R9Z19JtikMKav{;P<65+0<OBho^Yr-E4Swkk$icfmW5=`GY4b4-+b2@U
zQ3H;LuU%%{&&8ow<Ol(sl*$+7Os2XwBoc3MSqQJPWy0xT@9U(W&3{`^anVH%?E}8+
zGS=a1lpMWzo`Zp$AfWS{O~zR2&c}J=r~w^$3XP?K7Dq!46VTZqPB7Im*xzXA*4M$}
z`XiP09$!A#{aM@bVhpp4lM-?$Ku7d>Ce5aKr4u<;K*z)DOpxu*SKp8$4RqGEbV#N8
zG|M7~3Fzo0*bAKO(${&vFe$OmGxZ3)7hlfU{pUh)y&<C}sR%h#pwliVYhGKanv5JP
zpmUG>l*efB$lUw%(mTcb-qwiYbg<{wueaCu(lVnyB4><&FCVOPXHicmxpi;`IXOTl
zP}Fdj_~l@B<k$lp>vwIPEa|(wkRuLs-qAna`om&SziyWW+h~Mo)mRTKpEjTV&1GZs
zbmZg!ovry_s=m)#o<oj3&@m9Ui%aZZ6NDUbpkvD+ns#d1J{UP;-LQPDH_r1olwMDs
z*+PEIs+RpH2d9HQPwzd55{h;{W{ey+p!2l+VdQc9)U(J@1UemrDwnTY*FQlH6VU10
z$dY#|D<uXwja~S1#^ysvJZdLxv-Pm?ZMG^NuMa~Mpfk4lhyNxn>LcWkfsWqgqa(>%
zol}q_1az#_6e@n^ZMut`u})Y%dO^Cuj|!5lky8kC9=ns9L-*R=$QaexbEQo~(-)_M
zy}sYi_bLiV*MEZ?9ia2+@0v=pof_AXLj*c~q1<lG`)_An3e3yAI_51h)&a}ePjT{B
zxX3#b<P-uOx8f^)Yv0|EMvgDg8Ob|g=+Z5*4moN-$EHc}$4zPHY~-*5oef-@q-VYq
z`!FB4#b3LLdyd`?%h}t<Eq3*=WfO9!K<ATXvh`)z5Dny50i9;1-f20pPm{<I2Reti
z&W--{I?|7v={8tC3A<_A2Z{zRhZL_^d}nW(C<8i&{Ib7u7sY!aCkW^`4c?6#a+ckT
z937zJ@iuLr$X`bT<Pd<)^r4}yP5y&H$YIc7IS;(P&m5JZ(Vp}9`|UAn@3}OfvtB-Z
zc~AdY8|2snolSgcf{J8`Ey$4uI)MR9l_Ocbg2-8Dh2>LH+*Bl>X6%d{8qm>GvNc_3
zA50@f2zn4#UwRjc(_zKDPNK8r&=1$TA#3Eg0Uh=A$8^;1zUe^@8R)2dKI|gm)3yUS
zYCuQnJl#>_)8)48<KD&z>$Sg&<8-jE+XN(~94??l+9HP?=+v{Y6gsA=Oe1Hk1>gF?
zj>k#NPXFm#o&EFu{$G>{{x=$NI@tRSS>3A9q_Kn($e{wArR}F@c=wWZkYf*YEXw=r
z*!2jPTMi2Ra8}r4por7KKA-YWMSpza)=Wdr!aIC9W1Z92TN4En1kNL;4Cu7-_dImo
zmtKe*U!apV*l<95$aNGsia=*kXTb9GAJQfbG4j!jkE?hWnqm3G()vcS8dIf^QwDTy
z$mDPyGE{$y9ABWrt9Coou~%y!auk71u)=GjBF2^@$XRHD<#WRN@MHUxk;x#H*r8DU
z2b^U<C-%Lcg1uVl2y%RZPKr;=0h6HeB;+Uponp!_%L|z-|D1)luzVhi3rWN@cblQ{
zlmQ*L;_P*#xZJh*0)}}$k2`pLfzI}hR+gwgFSwDT2y~P_Y{~DBbBaLD!W&pVA0D2z
zN}G1#Ku#IZNi_-M3*E1mjT~Q~b6xVqSnJyAA1bWv4pY-_Un$~ru-BbbnIZix4!%_6
zumc^PW)Zd7b6qvaVKm~)89Sazu8|axZuUUr<N%$sOCE&}E_HoEjxW%0JvSvQI%A%`
zT|?(k_|LLJ9h?sK^&gh|EArN7GOUn806O+;_Qgrwlm8q>1HPQG<8jwY&f@e4IfcfP
z26Wc9#GG1Z#}tDcd!XZXEPt!h4JNiHL|4`WeI7#6K<DOr3!w*b#8t>ysE6gloVdL=
z%;&lTa%ezD?9=mhg7^I?<b(p9?uZE|Uk8bK<dA?4`KvU=p6$g*hiiaOF)6*12y}QD
z4je`@Emx5<PzTHT;E0IpYsaD*<m3RI?y|WiA>Qd~<hTJH7nY&ZXWqTvf*eJlqp<Cb
z)bPo7&%8*hMxC34U6^n>*yoEAb<(YJOV5RoGf;~!XRK3nf4lwly2<Lv`Z#w_?vfug
zoDOz>{(CEi+4I*(6LKg(r>HvGWmiQ0GvrtSomDT{CLcaKT!kEIpkqDyRrw&THxD^X
zK!<H&y>CcQ*7|AZ>nE0ZH#O61@XZ(YdFQ&O*Yn?|2KvaM0G&pacV<0_93PNF0y;ld
zzx;mg{?Yp({HaG-t9i8uKu2<1O@Fu{_YHFB)v$bcPwVmtTq#jU4h86B+dQhANbEJu
z_*#5%tKjGi3F!EJCM?<(epN#b0q96Mc|X?c%MV8m{WUC~`q~!9hC4$~?#k_W5FRq|
zhl10=?i;Q-7p6}|%Ss~04d}eS^CGW#bm%;CNI++5tgAqFv-nT*tJeh7?OCIxaXQ%h
zpUx{98{g)OoJ7t74PVY!ht=%^^Rr)D%aKC^I=&4rzjNA+m?9?>=&UT>6<)Y&_5wL1
zpyRW}-Kpiv%3h@%f42R4ll+s2)4}dzVbbhLo7**=ki)3LmowIp<a}H@?);t?IaHvd
z+!>vseOFo#Ib@)7Hzpvumob%#93s&9++DqQU^Fw!MrPn?y?%}W;}yPqu>D`xeO(Sl
z?>g}ZIfX#yyIiXUdzS59<b(p9Z)zW6zO~jxAjb;mgqpti8+DaW3pt8Fr_I6hm&Aao
z{5sCbge^6*Is}{!_I&5M-W<B->8KZS7?t?u3+uEfbe6Da%B@FE8qgVj^S<u35}AM;
zd!XYnC|0KWtcC?S(m;o>_vBA4^+P|p+Rw*5;;8$vP=PNW?0x3eT*a+!m!wLN(+G6L
z@AC@m6&=w)4i)IUQVU4`_<%DAIrc!urKxBQVI_15If_81L`3zaWw>LG3{%7jnyl<u
zcA&E<XKsF^(9RAyjF+(aavJoOp+zjlASVatoY!coytF@N4|05gj^e1pb8|6oKIG^C
zoj*4WtUjA|(7X1n*^oKm!%D>IV9)n%olKR}M7jiW243LH8SBJe_x5Vy2>Okj9H5h1
zKTQ_ZyR#lSZb0Xi<?b8u<my1=C<2|E<=<l$PTes7?ctf#WM~<|gww(98>TDwjfR-c
zX(NYTjxT4dBVS@va`8>o59Fi)ovZQmqKM76eURe@bjr$NHGWnP?Lm$j&@prmf3G5P
zE9Us8yJvMw)<zI;I@sre#y9In+^0f#kTYF|FK4XN<m+r-yqji)96HchX(z8LBlO?j
zR@QVxp4Px!h||H|M-Bcp=QR}7?m$i`(Aid@uM~RvuM2XlfX=yJTi13g-(%H?q35TM
z@Bgic(_zEZ6`by9_%sqk&q0nj(6JwR%^Eoo-H#k1(BZ!o9yK4L&;NRz<hnIsxm0$X
z4t77(c<v)}_;(i{a_FV_)*;r(BtP-E;b-5194gQW+4Z;a`){XT2XEP{94M}QX@%3l
zKJTy(T_XC0c4Q$(2<RO4RJ_Q`v&jrO1JCj0gB_38-=kuOZ~DX|Ck^NrzLecysr&jn
za;$*PqUPM*p#Trh%Rbv)C$lTD3gL9H`;T~Tu>VfNpWDb`0y=pjvKmFL(ecO`D8ZLA
zc074$OolR%8a2qF0Ual?B=`DKuQueQ0UcX4&EyJB>Fw$nUh?ca8j6B&I@t5;mXoJv
zt@)fBa&&;s`>or4Pm*<QkV61EkG|RUpLvivh#bZ<eDj4pt~gE2S4-CxPa`J{=#1I~
zPYA2NZ{Tnl7QS4#Y0Mtz5Z4;0bSBu&B1anNth?T}a7&Mrhn$6CSU$(DxbOU{xu}dB
z8qm3-dugsi+baw?p+JYD_|>74m91(#TKDf}d2gB};dHR~341RJE>SdZokNZ|&^dnX
zPU-FLCz;4$0y?Cwh4PuE>I=wWJjFL(*yGxAnX8~c;>9R(3W3i3%!cTID^I+(_p6C%
z6@Nbx3Ut_aAM0NIOd%RMRzQdLR?npE_1~SyQ3N`5USG_P91{>k4gu(NtW6Ov-oB3?
zIb%hz`Pz2M^vP?rqhy`pje2bUdWtlh4)*h49Us5uIxYT82{~mzhv4vNzhYKxJaP(w
z&gt2AM;CSmjUXon=v>fD8<{xJ-1egH;ycr`VTEZp9qc}z<yv^wh4HBmIrc#3yRZl8
z)zU~9a-@Ndj90jYNS0$Bauy2ltsm@h72W3&V^eFUBZmfb4t$mAwZ1n$@qs<hG@^kc
zArz;BeePbjN`)(2r0p$o$Ux@=_vA$P_2e+*hy$I5ou@y#n-BcVtnf>YiPBM8D8QF9
z_WqeU(etubMfwPG%7BiOmB_tIb=)Dy@dY|2j-QVmagrC^t-two8`CL4MVt<H{djTj
z8cbT#djdI3KxdfiN%Xn|@o3~U=Hts5JDw}{iwW-rZe2zW1?V)*r@NkzGJAy_GSJEQ
z&-g{owfv-IMz50%e5ERc)4`q>+ZP>XdX?7yMb7jSeEDFV$3tyj*}rlhLk<n-tXeJB
z{e+~jf*cCa>Ct<g@Fu5~897!!XK$miW5+T>qO(?ED}~44tTavsd;eo?9w8)>;3t3_
zcA&%NYc2VEvd0xU19|x73p*a(uO<X#XHf^_lmVT9?DKp7tQjvy4h85W2K3X3l24a=
zU3L5IRfdx6aXQ#_xbvMmZ~f8PH^@;0I&F)Va$7fjPDTzp&>1avng}%B$B7(9F24D~
z9@nlr-YG`sY-^E|19bRnNtq&tHW?>Ra0Tee8dH36I@tYi|Mq!5jmO&pkfR24hVv78
z{H0Q>ki!miDvFI=++5kUkwbrsFK6s=O-?1Lw6%pkMGh6{I90v6z<mGXUaz1B9<TOw
z+gjmtu=CDhFsb+U@t-K<NCTbG%y+AOb04-MhY9G^1k75GG!!QyhyDm(&e-FkY<5af
zZOlD_oHU^GX1h<1iG`hQ`ct=^Hu3R%Za5w6et5%X>sRjXsGrEu0XocwYr5o)weLfY
z5YU;4D4Z`^Bg%!Gg&cf2V~<Nm{hK~RKvf($bfCjG`>gfq!3RM%ZG+c*pQzf9gVVvD
zU&gr>x7iER9wNsL=(JrB7^~Tks*D^(pd)7V)0yYgA8q6?0UftGF|t|Fse{OA%*Hog
z*nAZ8^lmKt)HS*np&FRfSRX+FI(q}$UyPY7ZbJ?k=#;&5HGAINbQC#4Kxf|Z#zW`m
zO-0BV%Yx-2dtYntMPo`LateXYsdh`3_!a|>m<NXL9L*bpe1VSNNasz42g4XSYCy-N
zO~)~+i<^iXcAz7rH~PBAL5GGMdL}IApOF`@_nu;|Mh+F|48MrISaXM_;#<luZxbxx
zZv}L6&lvbgmxr!GjyTjQ?_6?=++U2G=?qvt{Z?0My>>^+BBu=KTyylzVvhRUft(<q
z^T8voGljiL=h&m-pQm(oSL)z&u-9ehdg)S0KQ({k5P?qP&X$2`3H?^&jHTnt89Sc1
zI<2XhnDXPuDFZru{f?jAdW*jxClu&JOtr@={9wB*YVN-CxD3x28K;BY=j9H6?7qoq
zx&}EyK&M~tM@I-F-4;1x5Ao%U9nbsw-{0^ydW0jV5a=izd>qD`(R&*?zCh>ZgC7E?
zj#bTMtuZXp`daI#hSR~`|4`fB8Wc-r{6r2B=s4Uo(cDf7VM5OI1AIAS$CF;#am1N+
zbw6?%fsRHL%fnGOwNd1x0iD`}ui}f}CWhGB&7b7diVph%ovr+)KWddzIFLgEI?5An
zE$3MHWsoBdbR?JahLclIDj<gm=%k0Fx?N#4kU$P24L0vP&-Qw5Q*5_u_A*p_WN;;_
z5T}DZPcKG9Y$)(a-Gv-qpmSWXFnoVzpb2u+fX*Iz?w=R?o12is4s@apb)DtCwU!Gx
z^i+H~WAn*9)h}0E|75-;jc(%iNaPL`r-Qxjv^dw_>@EGqiX3~OlmC>LvwE#$J#rL*
z4x4uHuebA6=a9n=bl#pz-To@?T@7*=Dfn{6=5x%^w=UwI&c1a=q6?E|bf4q^9g(MQ
zL%WjX>yYCMbfR*}yA@OjzmcN@bo6$~JUVcp<~wqTKqrM`)5crPFN}~gmJG}J?A@{*
z8#L+u89Bf5q&xF>mEm--=fyQ6Ly8W^<(J3_0y=>#huABNErpSz19axY1lmicSk6Tg
zr5q~*&L|LYI@s%JUV`u{)80C5<cuZZ%Ngs8W=$4IMA$hahX!=)#^_n^SSw%38flxY
zxDGW^aXQ%d&AnvYquEb9%tsCd=;W;5(MM>%x&}F+K<B~Gs}Ea<Ej#=FmN9R=*6=b2
zr-NOGAx50V@4HopkfQ^1N=(ZA*c8sKM-Bn#yc3VFJfZR^sOyD>OxTkbii|{j>jzt3
z$9_dh+|>I!4|2+Yj&gp*Jg>F@2{}}t6FeF5ZifKN8szu_o%ONTZn#A@XCa3Sbkbd@
z-nX_b#qW53qG-%7WKj|5P;+8qRoz?NkwXMJU5&g>WveWNk+YBhoA<3NTSdq6LbUbI
zOw^xkdD+Oo>0sZ-4-30t!qI>3K60o)XTPLn{;o%JdB`CH9nNr};!h9d3CJM=9eSp>
ze(Ob5N#ro%@#T!o=b3BK(}LXs)nf&6zDDAc>{Ot0+2n=e?+sEa$RPurg$FVp-mg|m
zLk<z>I94hfX~YgqBZonS<x|g}m6X=S7lj-u&~ekzsh>$Ge)WdwBA0||d?Xp@y#5l~
zZMo~#G2{?|PTAn!Uwbs}T|*8d4wjEyWcotKCPe|{P=Su9>)5THr%x@ALk2oTt`57x
zv_8AqRSW&!Y`r!TfsU7X=%Y0ZmU!eaVqy6hr0@8gaP`y#a;QM3_TJP_qn_?>$RPur
zFDk*-R#{rZ$RPq9+m-<Ge6p<=w@X~MFv)X-aUYhC`TMFj8bxakBZmrfy8o&kIvJng
zi5xP}Q960xlv$#(HgbqSrz>qbP~M7pHF6mDVEO#$DBo!#A0;1C6`?r%OEZ#+)4}!=
z%?Ynm9aoJHL{2Esxyc>!W%70$6*;~@XVJ2rul>q>KIGT~9cyw{@J_w%ffnOu!D7Xa
zO~^PM>~)afqBOI5JWd5UM4-d<+{sb>&BPhxFk)cyo_{la@b$CLbI74Won+PH;hVmU
zA%_ffN`z@GMc;SzbXX{i1O!|YBLbb6Xy-&G;g0plVMN37VR53Fn>hAAK@Jt@+|D?+
zv~lQLD{{y{ryxqX?xfi9AIKpBo#cQc0lUi`&1o+K=yAW7A2ROZ%Ln^963xp;<+V6D
z0XaE9=O@qG>~pQf;mGj?I>V73M#aVIY{=08I(NI~UOBCaj7AO-=!nWks`Qgpmb-)e
zx6P`n{2rs=%Ne_Gq-E@ll^dpSL{1LSv8h>5u>J5j7diGo=hT%e<rPNH)b;MpB|0w#
z)QbZh`Fx(F_E{}4<cvkZ^4Wbai~Y+JT}kBR03G3jab`0we3ag+yf{o9{7ARQ>0n=v
z>J(%Q{GunVL5>>GagNe{XXQcIgd8H!`OCRqW;V=RRM~m5t?Ff}#dIXToU!M-Xh2jM
z3rBkaa%e#3L$0c=@XDIC$e{q8iw2w*2P%WokYfdOA{!PqlpZZ7Ax9eMoQk%6I?Lx{
zKI;@id80`cVZ!NP*H7J}dF7wxnjOetMBtk*tRoiEY82n(WsICcpktGw5@~H#bO<@2
zK<9DTyR>^}DSuswkFvb~#^+e!bg-{O-kAtod+Wb`e=c&wfzFM&AHfgxoTHI59gZ(&
z?07aP5niZ-mMI~p4CtJb@eZ|0F>OUo5YXujP0Su^s}~*PT)igs*zo}!ptEqV!`yFC
z?HY0jKxg>c<>R_9Pb?#caR-(&bCIm>U@m<GIcY#=MM9?~scZTha_oUloU46UM(6mc
zGm7JX9`dd-lm<GhtK{$ceM`tf&cbb2J|Q){rySR6okk7~=nS4*d&aY)ih`U_pu=6b
z?(48EWh-(>K*z)UbBM5E+i?+PRmX$h+IJIiI@s%1-MDqjlN8SF$QcX6mowHWeYow(
znY7w9$SDIltdFGAxx2JJA}18+w7BhkUs8C}203J)L-2cX#$m@&vCwqkvF~1gkBQ@S
zu)nY5-feMD?G9T*<Pd<)9ht;T>O6@TISZlq<_kNX)zOtHtu}vmA!h*SnEZUcXWdp)
zYveQn9rr79KU^oed5ruUBPTXHaTnrru-6^Im}u6%PMaX)_yV1AOFv5;0k<UNr~w_>
zz>}qyKByTXhaKqrbPwDf!My7Na_G14%{w-q#Z1qM#gDesRI4=+c2l>fsW=_%`M&aw
z>D7aVv_<6D1D)uFz0)S|+X9fI2y`xWx6gX`{&<2McA)cf&j#i%edE`W!?=krXKX%^
zkBCaEuY?Ls@a##+Q+seO2d9IbFYbg*B%K=%Es^5}bef`4kL~*!?uZ;kp!2*sEuB%-
zBKQ3M_{Z5^?z>Dl9c(_lHMaNI>+Iu@L%#vbS^3>UvR~&e0pz3sogW))yf*K)7SoXW
zImE$ZG~otxmMe|i^~bwDAV&@82-rAmxRB`f1vvzuV^jYk{J_u6+Xoc3=|9S<+&yp|
zU(VQdsQqs1v)NZfGvwp|9ab%)aKaI{e~uf_`BpP89>T7!jmD!0bj}#|7|V?W>_rX}
z(7AqYi*BD<h^o?$vsxpx2QrNz_;SXc7nS>CIelVEnUO;UIv-q!w;wnq^&!U|=nyu`
z@H|?+X^tF4pp$K}QZ$)Mt3eJs(D~ue61wt9ctdhSVD$I15o;O2_;SX+FZ0Tz+4QMV
z$|K}70-cQ9(3ctf4MWH&13E)-?_+cWj$A-a4$!%z6yGx`@VE#$RG=f@@TZky6FoWi
zK{ib_!oMsOr-NP3!2%q;lCt}5A%_ffCNK48zIH9CL5?`kX<ePA{JBNYh;`7+-mxhs
ze&HIv^@FXC((B;J%-v*=gB%9XdAWY0%<AWccaT#Cbk<ID*=E%rSM@6sTf9776HEm<
zn#*rL*Zp?XM2;`eIdb)7pwFu}Cy+x1I^xxb`Gw|{Y>=Y}bcTP%3p=fHltc~@=wu`(
zSMzF|wY!i=ch!8b?%6^RzV(BB|Kb?4uJ6rTF>=T$13J>Wm-szW9+8pb3v_mDEU~QX
zW&|Kd5$I&zo>K8?<Wxk?LLe-kSFcEvK99WkxRk;e=8l3tWk6@!t$c|NwzY?l;|p{W
zCO306+U31Njv~-e4KsE>(`jLVoP_{bJ}X|SC3FYRnJ@Q0yPAD6=_>;|&wBzVDVC&H
z$nga_T76H7ZfC00B1aMEl-KO?>`^-7i<||2U_Rr0qbC!MH~N_uT(k}Bt|`OmVDEbe
zr2Pdmq(z@2CkW^;pX7O{IKUf%937xD9DY1)UEbAH<Pd<4AmN>V{LNxt<S?${%Nd)G
zUSH}lGy5$rUQ#|ctNMI4q~Ub1_hW0$N~aWMPVpg!0(9tJ=_l<k7bqbo2<YTkPg-w|
zxBPcpZa_!qyTYe3-)tT<9xI>|_o@2!Qm1il;+<7w)jxl<NjM$s{a8iDF!T9^><Q!u
z0iD5LV%r}oMz2QBv>(3pgB?$aSwzQu<IoStp#h!kY)gydN3Vpb%nVz|S2w+*0G+X<
z=?r;UlS1TJ0Ue{0jx1UGtM(#C8tANvJnxa_|G^kJOh8Al-=uen6zPl{`W4uGt(7^m
zydidT{Z3oP9kn)>hBTma)~_gix5d`m$Z-QYA7;zX-`#c47ddJ`CnAqSB616(0yzYr
zBldNb?2kmX9mpBD49mG7jWu<RbY8kmxy9a%H}+H(0-bUG5y|mB$q&d00y-!2byH+k
zzu1Tz63~h7&|cX5dX@t@LO`dn*89Ic5xqDn_?&lnj!lf-v@a~@(-Nug*P3(5AcqEY
z-V5l8T7^~KLJkG!T%Nywo4xve7ILhB&d->~0u@(pD<el5=q#)`z5C18Rw3tTr^)BD
zJWrT#I@tS!<KJgomDXQ%Moyy-zWKsBW=C_mPDU-hMGgh%^n_gBc6jtRKXS-GN8zR7
z)Y6~RM#vEYIx!JjK0dT4bMN<H*EyRIIy~l$FCXmnbf>FH<$=t5Uy)M=bnIMP13Z`I
z8juqTbXb{LcijBq{t`K4pi_RZb-!G8Gyyr{K!>z?f5E5?^Vx*{u*JQz`2`DJ_;SXs
zL)9n0m=sSHiy?;wbT)47)|YT+-j1A5pfh-GVR~efu?uoYK&NJ6&ObCJ;VN>7K<94U
zC(cRJliu>1TliD7HUA7;!k064Jqx5!8?yo|FCeE7=oI&<#PyVJaYarL(6P_HJThXO
zG2$P6Z^5zh>u(a!F|mGF^1DBRj2t1LbJ}t@mFG8WFmk3nVL5+nk{l?xZpA44aV;%`
zqo<1obc*kH(wu`{a3hBTbd>g<KEyPAxD+{7Kxc27&4UZWG&kf(105~SsHs}EbM?q!
z0y^Zhov$wjyh`c#bTB~DkHv@Xfp5OBb&MZ(?w%e@?n_5b4$#?W`u-17^m9w(1Oc7z
zipv?k%j|*3Ap@NgB0ZeTNBh>Z-fXT4ek5%#jnl#I8-8MuE2VNoUF0wUojuH+YE2ot
z{vwC&j&HuO<0-n)ueDk5bSQGtfKGh7qkp8J+5&RifDWlH>Y`O1V_cP0DR{R~*B3RM
z4)!|uDmQ2KqSX@{<gf!Ba=5iuRa8bha_DaOa>kA)Xglq>vdN>BB%esBmuI(Lq2hF~
z^F=ZhR=)H0VLo!~fsRv_G^^|rt?S591UlcAGPh@lH~kwAJJ4Bm)5c+(>)ACl9)>Hv
zoU!@54ScZKGoH7%_SzClcaZH;4o(L<U-=ieTS@isn;^#x==7-&YQwLccR-FJ(2?6P
z=VUB>;Jnf0=s1bInp`HF4mO{A1$r(XX9Le7hwcK)dA{V)-#;F^myweObWTh<^rgj`
zmf0EJG};j)oaP2}hHJ`3gJN6Mk)sB5M&0#RzunU(j2r^cX|y<68m!sN{e-9`A$!PB
zZonCqbM4S~hhO%=a>ywJI+}L<CmnS?GmsMmbZVmI_6v$wzX>xXRY^D>B$9AC*gDTR
zmfLCyIod<WQ3N`zMU!F5=21J4BLs9la;-c*cl?uw<xFr-dk_CKJ5C3CekERh7O0;T
zQi&Xf6Kvi`GPGIEnw->;lLK_D?k9#y&jzX>#~0`*l^?WMoWDayjt<Znu{v>}<n5JT
zC-3k|lU5~i5P{CMP7c4*`YKP6Gv)}(`GCX;rLQ+*E0I$Mbk69hasA}jwgEYzKqs%|
zrdU+LHcP+At2e?m131Vy9c&#)N7~A{{MLIN$Wa73nQV`)9aqbFjT|D-Szq;iX>oMx
z9^@=s#5Z5q<BC^xW~+3dh9QRmboRB6FT{#EEoG!IPTZGMSSkZL0TKuNOrGXnLJk$^
z$X5T#9u%I}MvgDgSy$Hc@WPAIwa6g@o#ZY3S+Z1hbL1!josWCt8KojBYP{y&XHGp<
zp%HO9*nPFi>!9WI0+T#)#vJgiAFPvlc!#=x)y6sGlmVU9>HF@MPc`o=YML7f<`I+)
z1v({i3EO^D&9EVd40Kqu%d}a}j;|m`9O!%uf0*5&-|s(GNY~SUSwUN{$Coqqb%2B=
z-l<NpyJN_q106{Ml`3k$v;{diK<BlswKB7-lDCH3*H0Hsq!>Xs9qjrUE$oXV-A$w-
zhXi!84d?YfKZ(AB93h~ys($OYA6J?WAZOYR-+W<@%VR|=Ip@6JN#xLgPF;9KQ(%pO
z4gc`5PZhs@1X6H1*ypc@zwgdme`7O_95T@1(Y)xJHl03%93i0db5TEQg2eG0Ib#>_
z<%~V9zPjr9lq}|7$SDLmQzg+q4BsAk#5hwX#Jt!)?~BvH&bx#Ex|q*5yyB6g19UP>
ztUi$+1t=qj2y~n-t1G=)e0t(Fd%d&4(6@VIw)k?!9@n3!44qNkzzXD)0iCh^{CPX-
z8ulV56zF`J6DT`9!1u;~RmWN_y`rCFoDO#V_}lLMx&Hn!Pvi&zot~(PYx5dUxR5h;
z9$(Jb@q|*D{Fc@oc#fPxpksLJ!G?q6vTEe`0-fBEpdzJ`4Qfn(Pl_BrwtYek=oF|P
zwhMduMhH3VK<9D!=djeZgdXJ3ZD2Xq+d36C9~oTjaK>|y<-Bq)6{mweFFcOcz07QB
zc1Dgp(0S^pCv7F%9gQ4CpflrK&2*Sa(x=1Dl*@YYD1jZPgT3D%$bEgSp&piroB?Zm
zIb)r+#}e^j6|I+%QwDT=zej)hv%9t9$34-y9bb3urT`t{0b#0t!6Gkm?14_S=A}!Y
zk^`8KqXu-W7yPe0UU%~_a)?0Z>i$2eFZpvMku!Y`HebBYmD>*WzFoDWGQDsr`}Dp>
zoDTN9NII}Qrdi>B136Tn!`WsPPmvk=gB*LHbE!(;v_)#=t2-%6_vS;)Y88Qw)y7gW
zhmAkEki!mi_@5jUde86i6FCekeDj6P`I`AIzZ=h3E0B`|bkcblhjMEB<}(^jmMrtv
zHu(abEg#ltE~MDEAV&x2kbM{U&tE*;fE*&w;XIx3nA`T-hgIeWpC8u=C>pcGmoxUd
zOsOtt_1Qe}5jllGXESTeirA`dXXN+-o%U=;nWf~?Rmf2TI_D!|mz-{WBO`|$=r|ur
zZ8M5zh+MC>>AAG9v6^lH%UL=ymHwu#{Tp(qKqsruwIGvncsFvafX?<{6GsjAc30$x
z1D%8oCZ2O`2V;>leHNBa);BxSid@Chg8kXr2bSv{%Wyi_eS>l`YM*%aH)Z660v)My
zwHc(jC*P4n20He`DVjL~6>i882RhxeX_L<dTsV-kV2&?mY(DEhJWn<~dgh?nO7-l%
z#~CAyI34W$4_l*P_WJiJQpiaII(KZIY2G+oU5p%Gpu>BDf8$**?^)!KfKGl8v!BkM
zhEK>52Ra$DGLbfq2h@LE-|<WAgk%j9P6yj($C)dUcvE*i?kQj2kMHuac{DS8^Nw{C
zSVg|y%dQ?mP7u)H6gAOI?FyWlQLMTlBj)fx4X1;>?koh0E6N{Ja5*5hUg^Q@(`M{A
z9qe(jiOkk#MR$>q(|87!&-OuDaGr3&ynw1=_oJ{!>7hU;ATjvFt9`M_$k72hGv_oU
zjtC5lP+AzxyiM%P>^L24&W2YfB#XoDH7fXKdt40R=%Sm#^4X`d{vKCxoE>r~K&Q^o
zCNJ~z2P$$%KxakzQ*O??J$}d`03D?_=Z#+<`Md`?bTTZT>=w@>{F4W1ci8%K9IhPZ
zrT`uJguKaJ-}sY}LjpPv7Aw6Lqty72LjXD@IXB+BMx0<n4&4Nn&(%EvZ<Td6m>`D&
zbPjI!e7iN_qQJ1GFK0OCYjG0Lv3VhM_f+-PGUO0|PQFzn*Nd0W{E<U9hULS&G<~RP
zI>iJz6ri)*W47tb%LysukbsV?sKNJZzB?87MRL9fA{J&5fDU(4LsO9bYYXJiPs8%*
zyeXlw${<J?ITWC?PMhEtNs%f*4hiT8dH3q2RvKy|hX8a^uT@1<yO?P?#2J3iIBB;;
zH^P?>_P&nNctlipaq)40k5hetm)YtxptH*Pl*0{`76r=A7OUylhW&0h9qe_da`RE~
zzd2dvSI7g2Cuy`GMWCZv_v>ILLA7r5>e0V~r$X(Sa5~uggop?Sn(%MQXIn1ixqj2)
z^`IHz%Ngr@Id1N{+4&GBa)N-4s!RSQkt3T+k)sB5{1~?G+n;)|BZmp-#7<2PAO3o1
zPvrnZulmmT4DA#wpNl-lujaU$KR`|p&^eGY<XzS)k&hfTpwlsXI{!djhE+!%eOIAK
z${Qx2GiteU%Qo|ho$G{G*S*(2Y(P5+%ZE^6q@%g<w>EJN<E75JcN#%BowZE=`z!xy
zgm-sIV5qoO=SL4dmOY_39qf53<@fEta=v;v+J8tm9qf4##Ah*=c#%nt_v-;|<-fra
z1fZkVBhCMe^IQgU=p<OqA6P@q=W!-ZBZmTXe&@e5mk^RNG(A(xvY;e;fCO}cJNwn!
zlN_{ux>-$i$*v|4fKDWV8hPScG4=X!PE(=&-lOyruzZ@z&%W>WoijlW1?U{wuO-~u
zMlu~r3_F)0%;rtP>0sC41|DsCtk7YJlby+)ucEWki8vkXI^3A@Y(~YQO;OTU<WS3U
z?n#CLzI?Fb>6I@Pv|M?q*Yk|$LRNGle;Q5)`#MR$QJJuY#nV~H@dY}jhd=q~^{7@w
z$UP6X?G1D%;dHS1)JS#sE{<`WWJ^zxqQ=D45P;6JFnh&gtB=X`6z4U3{j<@Au8%Kg
z?0BX<nWXx-j$b1T8tTVOJf~BDPNCj*ub@9dgMED-<>M@3k|dxbL#~(D*wMUySivSt
zJ2O6-0Cd)8h{;8;AK9Q7^(lJKt5@N4Jy<@*Yde=NyLTj{i9LUllQX%N0(7ihIG&Zs
z`q&qbXuYDQt1OX#PITI`;MtD1yV!<Oi<zD4X9z&&8S$V=p0wFyp#_KUlhK&%^y9F6
z`u9>TXxv3E*8XokvvJhdP=Jodhf66zw~X%^up73tsLQsHfDW(YXPIO(!iiBw+s#e>
zx@!nPC+E}ZEst&AI(1)8FxD|QdqO`3%O^Za{J|$Ly=KO)vXrEK#TFExW843|Wze{l
zoH?8GpvUh0c@ofZtYx(l6uERFX~yek)&>_v0??8EMflAoQ=$^q?jxMsGp#|_h2^tx
z&Q|fu-J|DM$$3BX2(C1s03F)<l6dyLU!@bK!uyYpD@%}o&g#PgH+8PNhz<LB#)Juk
zP7#0(PhXsHuBOOZQOSGiz56nP=sK``9(zaH*D6c=+|RmXd!_BH69wq-`uWo8wsGBx
zOj5GHmTrHM1ayW%&lhwC4PPI8Hd-nXnovyuIzlgX9Yxe@cUwzNd~tHoD57h_^7$C~
z!f3A(ON9c}=AO+h-)9t{v(bFeVsfR8b@hp<G-WCO4J4o=ka}rM_6TL@(U(5eW+%d0
z0?-K>O4?m*M&od?>y))@k9kDbg5@K0*d$ZM<dT9*v8;t$-|zqh=&V-p^6(X#cM+HE
z=sCYtz>WlTu3f!kd^)S>>UPU0_UE2mM+iVC>^tQ;$<`s<_@lzF2TbP{>6);7rg|SJ
z)SRzkF>SchpD6PslLB;3E^T<;(l*%P5hb)v=kdq4B%pIRYLV&si(jrc1}_ZW-o0&>
z0Cd#FAF>}OYPZT?R(~(U(;G+EfaT*=>d$_xd3WuR{aopGr`E?(fDTj4hw3{9&y#pY
z%T6?J%#kJmos4yBH?hXfZx&n5Ggc|J@ge{nAASw#-h?kI?1}pOed0G((A8o2Z0IZy
zIL8}!kenhIHQ9Ur3kB$iRCErtevHk}nA^o6(fE{`1ax|zv8s8pWz^8z_jGrfZ5|~6
z9sa|m-QQ0dODDM}iZI-3JLpGY`G_?gEwjvZHmH)A8hu>RKR^LGi5Yf>MaoMC?mKTB
zmpw`gBmtdE?=#xWj9FhRZ1Iy_iaffW0Cd{LXDG#uZwrpyWIC7igTsP;1eVVmMG4F1
z=-!DJ4t!JGtF#&^K*xUEKFdFCEInp?)#Cn<5DE$CJl^<K>BCL$T@>x>DQ~~^<r09-
zItBTq=kl^DM}?(Vj%yv{p{v32$>G~zSES&{!Wy`a&*9iZ8w$|5$0G4H%$C#cfl1N5
z9hI+RNI*xZxV>~wnU{@95zo|>l6`RmpfeCe=li~W$7z9vt*mW)9W?r3SU##FRIS&o
zd)>@GCO!0j5Sl~*ItNun*Phg04q`ujj!%EbF=-Oe+54_iV6Bv?TTW^~s@j!NX#&tW
zAa%N_xOcT*@ja`1y;?dWbX8bB*V#qqFG?rbfBDc`efK+$3kB$ey?GRv;>U2gcAz06
z#iO1^0y-VZG^g>dmNQkM7lJO96OR*sj@?cb&%H;sOKQtJr5sGXP)a`p%g2HLytcVH
zRq)O1b!py|up|o5@qS=aS^4V3O{WsitTV%Ytt6lm67YVD+AaU4J!jWOjCkqi6M)W}
z;Nk0B)f*YHleL$3^52-CtHAPck5f~AC>5^mveL)lwp_oF0(9&*J^rBP8vbl!SMbf-
zDVI!0K*w@fHTCG_Afsf7rn+bM_Us}6ox_u#t`&R|Nzk=0%s-mp%tTj)<?|%%n1U>u
zi~FvsyBXpinXglT4$o4tkEfmf+Z7LmEqv=Qy(0mg!D_ylhk5TTL*!Mp4?c~4LI64k
zec~oxICjNsmbQHMS+TI5eh`*VqtEJbtDz4kQ?o5%`wYrBDL|(@w3*1qXLDjrTlutP
z>2Glo&>0`Drf(8WNZ!d5txhHwKOz8~^ey_=xHgit0;1EVuhsnCPgjEFBg3_hdiZhJ
zqY~y=rID&bJQSdFE|bP==G`-pXE&(lt6e`z0y>3cyZRRI?S(XH^^UiJ`qBiT!<~M8
zj$K$&`Oy59k}ss)d2~fsKDm_=6{dx<n&}*)217QVo>PDh@AaQIeB$I3OLO%%sV*31
zl7P;$paZM(1Q)C-nm>eYYiV3003Ge@hS{()`-z=N3GRG$3#xPlSU!7xwQ}Z+R+&F?
zIFJ>8=vxs5=-e5cI&`Ld;aea#i@cSQ=YA5<DHgAsNiycWowwIwQSF4|Gy&+Wf3?4j
zIxjzTBlU!iP{V6?x;!kO6_3%G@IEi`2mIT^N_TiRQGgC*tTSeomgBBIQt{o%_enen
z=$y=2Sd$%g=|cXD6C=K;{00H&{79%;q_GK;HAm$xWlX(^rOUzcA(|0_OtXLITWol$
zR5awsL;*Sxt`F2W)-PMn{Cc!!IOo$I63~ejIv-)NwMkUK@^)vEl+H~8&{-dSOl#vq
zI%l+G^ywTnx%>13uzdJz4mpIfoix+UaKEwdbkuPQ(1}eO6_gKBW4>BK>Mj%a<0k=~
z9qk_lzxB)*mi^kEr8q1UPXIddPl7ikXX-sw4wFqkdRgEteLpN8@<!SiSCzb>=kRsE
z&2H2<3ebt4e$N%Cw&$e|$Mj76vz5Ihpz~Unw)e$$yJ^E(m&KXG79Iqk6Ma%@_V~NI
z8KO14j?<g%&FHeQe3EBR^>|&-KHo>`sgb-NyN&{M4*7Ne3@Zr?`xa>8yN_#5gamYy
zRu=oT9g}rjM3x80;cqMmK<B`0jd!}}<3r7VBV#gi_GQy$VENoKY2O@S72q(Uy1V#u
zRm}wo&>3;jbMLY4x}A4<t@}tzR~!lG)X%S#te3KV?vb-<$&1}%BLV0T*`%zBzNm2T
zcqdvS*thR7T^g3p&&WGZ=biJev?gx1?74NNmI8EI<gVH(w2|{omd_W6?1_0p0y?3c
z@4i-a=3LZDIK`sqls`=XIu12Qp7M<ET7NORx&EH!hOP8{uzW%|xwBgj%MK=Ny>muz
z-mRMgbOby*JPk%;=XX4PoOvxmBZdTY81ll7={p-f{_0xy*g9RGn*ekUMYV0_3-Js(
zY!ts|dqa&pT?&>@@uj^yf}dxYJF{zjq*fV8Q-IDxs+3ZD#c@Aze*FuASEj>AKu6Hg
z=bE>5z=kWe1ApvG9X=3%4y$_1hKxr6_gg}QcBcLP5JZ=R<x|OS;hOW9#U!<A=$FLa
zt(Pc3=lhf3431)%ChskkDw`W+t4KiS^^!nd#+MHYx&@!iKgsO~CjgzwjMhyN?)DiL
zkF_ckHpfrX_X6`_$nttx+GeuZrsuldmp@AZI_~3#hJ_aSSKs?J$$d=h6qN*YWIl&?
zCmix*iPH^l`0iZ8MF2WGf9Yi%BYK(8+;|3-Sv}U!_rUTok=dp%>K8Gm)22M<wsUtD
z1?U_|++_NV$t67T^UZ@Z4jxG)pi@&;Z_R${a=HwCt#9RgtP}z03~jq2>Ygxr`*xxe
zX`{lXIJyKZAF;mV2EFJbo~ODT;^z;1%Ax?B$oM?<9Z&kHYGy~znh&2DCjlKPRfmxm
zd458-TWZqkZYvKHfX>+8hP&*dCE?lD`5)AsKQQRKVfj?G`Fkwet#g<Z{2SxKmnTmF
zI%ipS)qfek-1kUF+Q&t;KA!}1o{c#qT+MVA?3`h;2`>3FL;yPNPgl=6U6lE>EW>l9
zS88A{T^yFr6kEzfNK~%Hu`1rsJsg@hDM05S{m;VrDb2wE%g~AewJV$?pp!7vWxV5Z
z4?|OT+uL!s+dTxJL#?jk8}m$)^=0gMA<ZZ;rHjGx5vtkUY5i=^;=Qo>HB0;o$rPY7
z<Wg=HCUYiLCirim@B5$HB%sq#uWT%qo^YqMf<J4AT&XDm=%fmivO66J-$;^=ANpNK
z)TE2T^11co#1F@Ag_WH1176L#joB2S^Q3;=(7Uvw<+-*^HFH*@r%6EP$GFMWI~x03
z?1wotRd@A|6M#-<;MdUlfOt;2LuBbW?lwuf2rQqwWfv}5E`RrKGi;Qg%uO~@fX>>A
zYZ78B*L&V^jfAZ5Y+ED&9jCeS3hQ0*WZSnrzK@TLni7Cc&%L&y&8c)1mx>kI&GgmV
z>APV0Y;@=v6{iii>o8MZ`8^e_rvRP&j*~C1yz=WWZ{Ky{Zn@8W63{uk*0jo4@8o9t
z>p!xmMN3)<K!;0a@y2{W!R$n9R~^&apMrE@SUv+@RpT3M_D&xm7>I`6_?AlnIu~2Z
z)DOIxY;MY~=W7gOK1>2SO1e1}f999j38Zr)FZ(8z2tbEbFP1;xb!hY8auaLs31<QN
zPFOzEoevYtL;g-8hXQogMc&(W#?iT?%(9L9S$@c763{tz(xCiO%Lk@LVl{X2IXxNy
z=p?<33Y-ref2>0Fo*DGlpQi7?mk+jYbbl77S>#POd8_I?CFbrXLK@KN){c!9Fp$zX
z^C^(<Aj4<98%_t?cM}xma`Z>|b;(U;!$+-6IYJeIj+F2TGrDMb2FiyCr-SWJ@trZ*
z{+_p_lTFCrOh%JHC`|}o&RECz6`Qw#JuNl%a~WS-+wa>!K&O2->C80;$$#^u26R3Q
zlEOds{t7lrBZZ0F$=k;SbOr*paPoX{t>|ZH#ATm~E20VF%Lm&hH8oLQ(!g_inY}-k
zt=RW>4i%?^T|e2rN1rnHx;HAjX<P5`z87hQ)4`61XOpS~pB&B0;@Xyi`(G@D6>&P)
z^J^ouvi3^9q~XT=>&`QB0#)od9qjsfxW7g#adf2pxpRVuWh{SS<92*GWApjEup!?e
zUbMA8$5L&oP+yLM)4`6X$BtjGO7}3Y%<TiJtrffZNH`trc;<dPKWgXNt9dv5XYsY6
zM@vMU4t6|47W;oKI&C_8$}qD@dzeR<u?=57Sch{+X}-7hwMn?r=y_`gk{1=|oSY-Q
zl63TSJpNbVjdWOCJQ?WRc(}<WuqX60>iZ)CotF#8pIFY?4Whn3h5#%dFE+F5^?Ulb
zQQsdG=)?_E^*du<-9mkTWS~=~nmKMOtWk*i{)j-wv}o-%a|g#h)Mv-o3d^VW(_M~G
zy%#H}&yEUotbeb!5=_|Zi2CfvKxfa{tgQB~kb2Z-M+7=gSMj!go*&+W`q~&<VEKf#
zmZp9^KK&i_wNZhNz23c7*_ox6QC}Mw=<vxUe4$N@MWB8(BG5THq(Sz5vNVVK(HQ)&
ze6;kLiM+z?1*jj53UoMf){s@}rTtO=7a8cRr|i7@yq!-M^?wn8&YdScan@rK(y0H7
zL4@T)+LU(bW^n#-)c-{VI+0KF_$X|m%BXLP40OD&*0nut93`N>Eh5l~As7yEN;PGn
zzAXkHEFYydeRZ9ddp}X%78U5|b7o|m9X#5A`mM-7=UMCTaf|LN8mQlj2y~Pe{<cOA
zC_18kE5>G6KBcp}cYmZ+8=-zHD$wzx^t??^>D`O^lE^^EgS|lJk(8z^>PsR59gV5@
zmC}b?o~SR0!3)cW?Q(URK!K43>Pw;m9S!mtqhu|0Db$xl20Ag_zU^5SLEBJY5)tS$
zj&(VCjW+y2eMt-+SUy9Q?6(DX$9+V7NmQUSR_U~raU)_F^(B#kj*w}AqffSQHR`(|
z0-fS>al)Lmb4O6$4TBq&&ph`j=F^;K1W?}%73f%ZmwDGSu0)}}8#2%lo|Io&(=+3a
z`fi9oXYhQt`=5KMv8eBc!3E1_X3L@QTkGO2QQr*}=!loq*eqKOETg^~GSuk`*I?S+
z&4T($h(PC<pttGWlV%juSHj?g<wH-DW!a(IUxWHes6a>a%~;DQ(|1+WS3(9lyvjk6
zr%4T$QC|rW=#1Mq<X;{<c^vhXFbJ@G#!5og?@T{Ehx$RNKqt(9c7&}%;w|dGAOoHE
z<gN8&lW+B?|AGi~)(3T0Y<t(QjQTGan_&4^F8`2QE73fR`Y)(JM@vcnnxR44HPnAW
z20B9~7vv;c-u*%S7et`rxbBmRezHv@>c3!YgyqAuzf<`DEtDJeUr>Qgk<R_@%csTM
zQ2zxP=v+T3CcOKy^gQanAOf8(J-cZCgQu!c{{>?MET8vfCwiSXzsyJd7gV70IlM{R
zKdCPq^<R*Ij(O*=59X?DS5f~35$N2k>qs@UZ!Sjt7mW3=d`2pyrgRURl%f6$D$p?w
z?>&B-^CKPgUyy;$QI|j?$7_G6sQ-cpbTp-DX1&CQe$-#USO?4JmN-*t)$Je&)E7Vn
zI>QpbbiyK>^-*5{8R&@9dIN(O`czS001@bvTNT=Q{nu|=M|}Z|wXl2`)(+j5f>%qT
zz5puFxt@_*=jj^r8rAcYfzHlnJECW@?~0>(ej?D>RJ6x_q2z)Hs^@2L!19SHkdxXn
z>_JC$?^K|pf5L%k$g9<i>eb0W=XKcdah4l%Qm9^?2z1&mui_AY<4r;J>I`;RKK&u1
zO1B%f+o5`OD$uc8Je{&>b%-RYS0@7<B`H0#{XVPZP`x@4=#11#zZa3cK7#7i8Emk8
zN-{69EPXr1Ky}?zpd+4{-tQPW?T_lZ$v~&|vP;RIgLWTKT{jWxxN5vUc&F|ls-tGG
z!t&9Jj2o4SYUo3C)Ks7|zmz0@qi*Cis#_)l9f1#&cinQa%cyRd2y_lx+k6QrI2VZO
zjTviT`G~(Ga+kgoSwZ#2RG>3r<Y1c0$*qR!gvmhXW!}iVvdWw^suLyx9VyB8`@-JW
zilI7T1`8~o6Gz-G9`w#}Lv_Mbpkt`ZK^jX8FhO;>WS}#fGW$EMG>C6Q{kJbhX_o_t
zK!;&$*ZsF<l{2cRWvqtfGqBzuL4TCn2Gw~|fsSX0(V%m@dIPG@Bm*5i_v!A3cc)c#
zlxqblnfLn;fzAWFOF~m~M|@B{Bx4mUpFM=UxpJ?^IjA0z3Uo&P7}VA(yhug$hh(6m
z{`aG|B(ZKks?#F^o#s{dYUcIg_)t9?gBg}jZ)N(?(l|9KRL@2QI+J243ddEyA4BzQ
zWT4~EbZm`lR(m(9XCnfg^Tq0&Iz7ur(fjxeCRjc>i<h=t)Q%ye_wlJfXU#2%%=$A=
z%+UMzWT2xeIwIdcv5JD;$0q`vuH}Fq6Q8dcq4)6_D}Pr0`|E#y>iPfu30uDrnrQcH
z>u}~4^troKp!0rRdn;>)X#=VUAOoG%3c=4a-%5W(^#DYmb5H)vwlnPO2T?r$<1Z|q
z6St3#3T~h5K=lArprbl-V1B8n_5}L8Tr$vERpAxcAtV%x>I#TJXU}BJFirj8D5@)9
z{DI{&J#=dmsk?a=)fG^I&P-o#<C&s&r%+u18R)o*P4D}0|5OsHD<A?L+JXHn6%TlQ
zP+bAzH!L67Xyf25S7KDq=hISwPFCPUi;P=I@&D=*fX-JvLmk=YNv!|s6M&9}{i<+w
z>-_P5^$E+cd@PO%#~qv>3;9={0Cc(@s)rSSG~4s9J^|>QTD74mX=Rndzxo8AQ^)0S
z+GF2<$iMo8C0IW3CW=homSgq))h7TQBk5g)z$3J|fAtAKXX>D;5Z6ux{(toeK!;o%
z)oDMb@$p}M!Xhl6{yX}z=Oeq!{?#V{op|m8WBWfkyg;7^O9nbcKhlqGkMtm+ItL=q
z@rj!9jXES*j_Mp33$T2&re2aS&Cr5SodXr<w1@5f{a)x@9IA651D)0ZO|vP2%GrPQ
z2|(w$2!mkgpZ?=teZo8}9}iL(jjQzS&VTg@K*z;4G=%y<hV@^40?;{3<kjKteBtx2
zJ^|=_y6Agw;bYP1fAtA-uzbP~+46Xb#$Eqcp8#|+cD*b6HNg}4uRa0jd{RExu<e)r
zyMOfwKxes~uD`)QY8R?2VElsRvn<KpTL1qzyVGc@-tceWk|`xa;b?Li4HZ(!Oy(g|
zl4Ht|GEd3WBxNQM(uw3$GGt7WN`8u>l0<S;aw1WLG*B6y|FhO}dDhzhH+x;Z>&<7~
z_xHZ{-sc?GweQ&To1m_Mfpmr+3|d#u=q!i20vgg0QT`~nCP*t1>Ix`GXT3>B*QB}j
zG}INae&X^eJFcd$l(pa=)D<w0&P@LSb#qZJQ>ZJTA)R0;79W?V=@F<apdg(;X~u5z
zXo}tNzDm{)Tt0~|k6W%C*sln61q`Iq6`+uKPv4Xi>I!H`=Sr`Yu65skolsXmK{}hY
zWmYU$EVCKv3RvT~e7r7iS@=fwTP4&LFp$ns%U|XZ*|oQzu7HMg%x_q?n+~qq2XzG$
zq@%iB?w8r=EyYk*!1|8Mhj&|~xoNV|DyS=9ARX0A%}Br3&4-|_fQEEpXT#mxrQZ8N
zT>%B@T>te^IKgzs4X7(%jp6d4$yD^coP4?r>IxW0=hbL!M|1kkGN>z{AsvS$S7S=w
zXWKws0R`!BY>NBz;Y+SP)D^Hsarqp)ndv-Pqc;L|1q`I~Q=s}3=k3NEs4Ji$9rKVW
z$?ymJg`lp0f^;g|=Q|Gu=chtl0c!-8&kkm++P8JnrchVFKswu>7s=`Hi1<TY0S)Om
zjkKPRJ<Q<(bp;fpv)H!l#FaNiOQEiS^$nNLmPB1yZmA!l@V-F?(y^aUNgvX!vzn_<
zKsq;Tw`h3N(hTP66OhiM6p_jf_ZP!+^$Ekce9AVxyUIDwUtq320qG<j*?z35svr>F
z%SS^x4o8CvKZo8dgE|Ka(pkQ$-iIfd%M|JySVOpc#zogT&JGLuL7f8w=?qY&q?%^e
z21A_#4e8Wx`Xo{KMW_Sn94JUfHM`xV<MiI;Q0Kt<ip!@q{kUF}AMFU#IWUlpSJMKc
z*_4mcQ0G8HI&ngYBLT`UFF>6G1?faQJ!&pcXC)4G4y-S@e7?tAQdH~m<%T*32GZG4
zd26|FNc(E2bD$xePfrz%ioFZ#;eBxwq|<T5exj|E9t`h`V-4c+Nmo*sshrpQ9qKL^
zNXLwiHnqBOO&`=<(2$PJ&E*>lU+isw_r+0=&ds63RkkWohv(`y25|W_+;!th@GH@p
ztKUF6zmJ`u*EK9%4eyJiA)Q{ENXf~Z+kH?6LP0w6Z%X!aE~_7fIuO=pTt1t0txflE
z_US<#2m|R%8W*+Rk3A^?bs#jPvtVlyg|XCM3hF>8NN4cd^v#P)^KQfY*;xI!eAKff
z+H)T}e1Uor2GUu|=1=gPKK2djNoYvt=Bh9`&7(=vP)|ZZI=AB7hr+LBE`|4ou|DDQ
zY3lPdp>*%t2z4n8q$9k+VV~!rvLdKUp&^|p{#_T<Wa4*0T?z&16!E-sU+=w25b9D`
zeYkv-JBkejI%I>PE`@<~3>_v!zpXvy1a&Diq$5^c_a~Tf=s$Sx69wrkPI_g{ye}|s
zuD+!gmrtVJ1^YjHM4jg9TaeE8(69FUHJMX$^({!pphl+j#+fa-bM-Aq$N1Q}9M0X^
z^>g(tA949Cw_VEN&D7DDt8YO%BLl)o`|2)o&egXdoddrmm!DNme>_*;f^;Tz^{F*K
zH*(L_x3F>fsHzJ*YOx9ohx4f!NGJaT|FJH?L%*O-hK6+R*T~%Rxg0tSbutvBlkp;C
z(pvYJJk-gsdT{xioo#iv9M5urIvEDi`MYSB=VR{g{7@%DLpl-kqvHo-_vFF()D)zX
z{h;;;^?as2)Z4H=;POf6_&e`P_2zo0w_zY1b>2;R&Wf2%P;Wy+I^Py-Dy~h77>9Zr
z3erh^=a{wOZRS5XpPJQ;%jb;OhwA}X>PDe%hk<l@ZJ(9#9JIXybvrbqQ@uxf@4n)r
zzoBl2f^@F;4lh2>toMcUsafxF`S^C^KDcwjcKclY57OD?L#<i)sC8<t{s-x#bVT~f
z#jkugSO0@_l%1Xmh82H~oU8wNhs)>f#^77Gtu$Qb>VJ^V;_cjz$M-Yc;CyNt(us(%
zH=O;^_6O>SC`f0}e~k5F@1-oLBVxV9<<n=o%vgqPEdg~z45afXxu$mBRxT5$BcdT4
z#ipB8uQn}oh4ZN?NQaZ5_H)OwZ=O((#OlK3^D@<-Y&Ywr8Pp>&kPgF1W9PPCd%B<=
ziH3A|#h&gI$l<qudL#<cF*Djxap-l91Jon2Sh##%=TvE~QdTyA^Qjp~XXxq+UjyZ#
zRyd!UhIC$RtyVi68uo6kJ__kvKG-f0*ll%ou0E<0mrw7pepU4~=cse_QAkI^;N%bM
zvU_85^-)Ntr>Uqda8INfya$GYbj~PTJn`vH?0l%RV!grTBYx;gy^T^}3)ERLkj~Ja
z_f5HHCRRb66%FaQ6jD+{vj4=WYdf7P8t~joK|0qG&p(%vZO(&wEmj9EpSRJq_n(dX
z?}T%%8Axa7<fEaHOXk{e&NU6`l=J`1HY)L|hjXqeNauDseVN4PIzBk(n)Mo&kLvyB
zcK)(c_E68pKsuu-F8?fE)0j}tMngKO$#3f}zt6RRdNvBuIU4+<IeJV*80y(r?YMkw
zj~<kC4%K)I^=u5JV`21&rFgiB2i~_sLpm3fla60A6qJX$I1189chrxO6B-VKx;R!F
zE}zC%|1Qh)S1*Het{F(j)UKh_FS$(*&bg)`ooXqAHIoN-NW(eT6r^*)b^gX$R@8eq
z=bH5jmyiE#GueZYyUU?&kb!g>YqoXd2rxaM-j9ZKuEe_g-1kflfO<a)()nFB(>lZb
zbQ0?QSgp8x;-gM)V@IS)K)oLW>9iP~GBa@OsE2w#8qx`PG$a+wd&&sjM?^t7E>Umw
ze}}#Zf%B<ZFLC)ut+s8vdH=~SIG>t<bSkHoW=Q#{=0F`I4e6|^zjiHw|5*ssF;b9D
zmg{Z3H@tVYLLDQk1((nGcYXTtSK(Sv$H+iBg?Gc%*@CadppKD-bkdj`3`IX*n1DJ)
z3evgO8vkTP&slM(V`RO+<rDbguA+8BnE=!=GLX)yPfveGc6<DTIz}4Ox%_*<G^6?9
z6x1<NkWS4_X13OTaW1H1WHsaR8Syh-ySZ3)5!5j<kPg3{)cpYS&r6_=k%n}Pm($e*
z9&8GPIz|f8IrgPO`IEeqEz~ixp5yX~%uR||Yo7ie)G;!Uj#FRGdST<FP^e?1A)PX%
zfxJ(hg|DHGk%Dvt9mOV^|0L<b`P8guxO{~3Duaavs+n*;H3R8n41S*fcy0XvoKH<d
zIs*m0TrF*^mvBBc1?f<?I9fJO+Q>qkC+jILpZb$)*2JmX8N>P145Z@}B=&0UlLASo
z7o{Pchz&zeLZkP{LcJ&j=}gI$yzeL}9)fyNRue9thV+*m4EN2epk9=LbmB^yU0sT{
z%Rs#-4e9LMqIUkiB=;$(7o{Mb#jkgrEI+p41k{VN8gcndjvuk!r*0(y^`Z=<^J>@k
zRHwT>x1e5>hIC|hZ%^I4wlx#Zr=}pCwF?~|n&~!Qg7c|aPjLBsSYw?!@#LR0oKMX_
zI^|>2VOI59GocQahICG;O)>W??Y|0juoR?I+IFL{P{zj}>R?%qarykI9`e!T*53(r
zuneU0a?C4$s;40jb+9y~W4$xH!;t6JNvMORARW%xJqK@m%W#J}SXKirAKu%K`4er6
z<)99hfpikIXn9d(U+tg{mWFhCGpFnAj=fNU^QkFF$L}+jiN4u08k|qfs>kJ1s&eF=
zYthI6oKMX_I^T}!+YTr18=I@|MLNTK6rPG|n1#;O_aYrGb-`<kFNsUc)%QNa<)aao
zm@XCCQw8T!Gmy^m^@gfyYdE~&d}<of`7>(1t4n&C2kMO}NT+h1;BewV(;=ugW<A8^
z^FRINC*{UkETP_*fppI4owUhtjMjyEV;a&4+HUv8SoA>!)EiTf&V<rdjZ@Yi0-@fR
zRfo$b%q9GFyO#K6s5fRH9p3nY{e_dE=}>P>LpuD+l{OvfJ9irDjVVY+Ff7aPUqamz
zs5fT)hs!5ld@JS2-aRHzZ_GeCy=AE~Di&rgP;X2_I<AU;_^tQei-&q+3erh(`Z>&W
z-OUg6#;jUgJ|d@eHFvpw>V@;E8AvDe=Dc$1XE6sjpPGhrIya?;IrnbfHdp_QbOxyg
zMVghi*>m;J4{-TZjq>iPGL+jlSO1K3l1?^Mt9umfgmbQGNT;pKB+6i001fJ>DM+W7
zE5mlJeTo#EbIq#3<s-RDGhxZS;!rr}nt^m$Q|B{ob&qDiIoC9#lko6^(Ui98WjN=W
zf^>xPl=!+F(j4KOYu0^SKG!8QZ(m5DZHIbw2Ga4edjIgm)oaaAuTDcc8ka)dd(y9O
zhI(}h(%HF&J8H$2`ZB0jXWhf)Gk8>ZW8L9nUT|JE1L?#!M@sR^c)f@7vS~=i<G`|#
zAL_fL;Jj=K(%Jqt-gvES&2gy1XWhl+vu4FFw;rBjMo@>(KsqO$9+%imclCnvvS~=i
zX>6O`n!&A|a9%bA=}^0(vL@%BxdD9vtZH07UW?oRMXjdHgY&W(NaxhM$h&7tsiJUR
zHVx@K@+f4Rr1`eNdD#@CBde;<u}Ns(IP^QP?%?v7CveZ@)~0eHI4_%lbiCK?zZ>rH
zCK&oAXh<iyyMya`cf2#4mrX%BZ=R>vw7hSBH`jkrh0EurRnj~oX4b#C{tKk@(>VG+
zPR@rMbNv@sC;D_snt-|gT>k~qiCJ%Z;`j42F_M-|x49NYMzC&^%ZGSg?N8S?+$lSk
z?wPl0GxckVt9k)Rhxi^&z2O(!V)VN_&JW!u)#61IJxDslb9m!9_4;`!0d@3d7bUt_
z$AC6Thd7=WkCxVJj;cO~d^kut#Pe#4R6p}Syq~ZY@@c9hm-7n3t4p_6PF~8ZkJa2f
z^P#Y|px`f^<amhl`sOXGT@-c1338^AbodD4Dd~>yYZLHg9^dt2O3LbJ0EMJO98bl6
zMamynxp%>Ou}J1abd=s6-YQz$(;Vhhdz<g(I~D`!<lc{{dvobTMyg8Nf%$c5UuYy9
z;<~Fpq<0rAG0j-FM8^HY29aY_l8yi&=OqpmA8GgIue3K>-LWjVLRp)nvw+~Vu~Ub(
zvp1Mh)R>+fX(3W%9d3ftdZ%SjF(LXK^lg!y7jeDHzj0c##crI1zAg4Ga@PgXkuKY|
z-F!#BAoOi9k&b^+amV|>;T-7Oq9dJ4X<b9Z#aBK;-xd|=XrJT?_iNj(34L4a3S2%f
z8NuzHa<xg&x5Y#{hqrkThfQqz5Bj#~Nay`Bvo}G1uUSLi78U8d?%lXfKKb=t=-Xo7
z#N{*0QlHw>*y9R)TTG<$ykKqn0Zv~F=-Z+r9g6kEMY5y1snEAYMLN{sz(sa-$7-Q(
zi(QV($F)0FdE|=7Jm}kEBArIAq-LoF3@zx}q9dIf+|h3WHwavSzAY-!Y3iBYoNIVe
z4*Is(Ww?CQrCbxm46OD+-xd?;$ZfqgYua;M0{XV-NM}Ta5|tMo+yQ-CRHSpE-6FC!
ztlk{@w%Db(e1gv$ZslFQTnPHMm`Fz|WnhM?s<;FCw&+NQL;isG?Sy@{(6>cJI@F+{
z4GxDbji7IfU4qMJa)+mMt1AC0=-Xl<9hdnlt}V()6okGlI?`F!+^KN=b2~5eZBda<
zzR{_>cXZYXL*Ev=7?;n2jqb<IIxO{}Z;Od^+|M@!kAIA2K;IS}>1>nsU!t*v@dEm`
zs7U9jRn^Xz@~5HDx5X~P<)b3fVEHRzSReYfm`JD3DyhFF+{_yKw&+Ob>fgbkr~x%K
z=-Z+qoh_+(_cNMjsnEB@zJbeUY=?o!*wNrr=-Xl<9m8?I8=KAie?#9E9qBCP4(m!0
zuPcGREh^F(jlVbIx?ZRm`nK4GxP0vTzZ*6C?c|5PEhf^@TK%4F5;M3P`nKpu=V<tN
zVvh6VSLoZKBAsXTFRvQE{J;l&TkHZ{J`ua_rnU18oPxeBCeq=x$Z%xdtoBp?e|=kY
zq~r1Z{=mZ7b4#Fai;8rPAH3F@y}s5Q`nK5lxO{Xgc0Uw3p{omhTTG<$XhEar{9DwM
z(6>cLI=;uGA7A+U<`DF4QIU>*U68zGqqqn3ZL#xk`Ft6&p1dU&Q4f7vOr$e#c7ID_
zr`ZkY+oB_#wC4Z9vgMyPL*Et^>2&A+tg0%NRffJT_H|r75w#(0l9Dwl(6_}zIuF~|
zr7UY~9)rFuI?}Nlc{F6m6C4A5TU4Yo$mRVsvB}a7`nK4)xO`?0)wr*fEYF3$Ehf@Y
z^EkUYYPaHA=-Z+ro%ZwZw>f>{>4Uy4D$=Q5SKYU4g8B#gw%FHj`6x6n>^1Mtn}+wj
zGm(yA%dvKj;XDfTf6<Z7x3c7gIqqq5=g3o$j<@rdEX}6f51{{xeHE8a**&XGzA0a$
zp#O`BbSBg-?)v?_^aJ|8=t$>!%Y}clqYo(1w?#!d<F1n2u^G?Pp>K<Q1(%P_nt(#x
ziuPgX+hQV}r6UpQS~T93(6>cLI%Qn(od*piQ=xB*igZ*QOrBl7pCAN%TWlsSpGThQ
zQsdzcuc2>?iF6p1BT7p0Y(ePTq9dJeE3fJCoEa#EzAY-!(XzTRNZICZ4t-nf99%vn
z3CnDbX70*^zAYxwdFkNtAyr$u75cX5NN3w!`P*H$_Jl#-78U8-PmF!C-6z@r`nK4Y
zarrpkyf@8ZJCz81TTG<$r88aXdS=I3=-Z+rojjdiM^w)xv_an%73mZWSzr8o?AQSG
zZLza)`MmVuG*J2;%ME>7Or+zy&*lBT(yT+!w?#)fQj7ClCs#^uguX2*(z)&|>a4Z-
zx-s-^u`l8Bndi44Vdd$6kD+giiF9-XFWLO-GSq^;EjrS<_eXZGj?P#K^led*j`^Z<
z1>JI$_RzP*&cfxRcjKj-?9O@a(6_}zI>9y#G^N}#MbNiJM>;_lrdI~ss#p(wTU4YY
zH%1qX5>2gxzAbhpE}xUxzK)@nT4$hdi-~l+xm3o~_Ww<SzAZY^QK#!CTOO&;fxay&
z(#c}&Gv<C^nG1be?2EX31P`5_%#d|j41HTnr1O0L(Tau>9A}|#i;i^uTjnE}`0<hm
z^led*j^E6GuPruyFNeM@HUpQB?d3P7^?z@#fxay!(phue>&pw1v^wb9q9dL8Pv7l|
z{ju{a^led*4zJn;b%CZ!RnWJ^zJSZ8Zs8)0sI@n*Lf;k>={RkFd9EhoxfJwm(UH!7
zuAQSB`^zMuZ;Og_-kHy1FC5PP0exHS3|v0zXzSh_&}!C&zAYxw=}kW@QM!5EDD-X7
zk<P3b<JrE%(hlg`q9UE=Hsej6Z*I=@ZL!be@_AqQphw~3u^Z60#Y8%NYe%XbceqwU
z-xeL|NIkp0{m<59cj()qBAtD1CqxgAT;2+OTkLdPKJ#NeCax4^v7v8^iFEe1*z@t^
zYaNHaEjrS<v_x>d%Yjp-(6>cJI`5RZGT1bqMCjXMr{VG`?Xf&O;kEH2^ldSbPE*nT
zo*>zjG3eW(Bb{rThl9SZwKavlEh^H95t~+{$vxtQzAbhtE+3QNQBH&A7lP2Y#Y8%5
z9jgAT(rh$<zAZY^`5yIk=+au@DCpawA|1EGWuE&@3pt^0i+v84kM0raD|?x@)uC^T
ziF9ri6dy3#)-MfxTXdvjku;q6uD_%T`nIS@r&eD6tUkZmM(EpOr{MAtbC0pOc~R>e
z^ldSbPIAUmlkON33iNH!kxt9Pb<Fvd`p2Mei;8quCtH>#8=AC3-xfO=m(QZXqlIe*
zecGXKi-~kr*Ctw}r@9nF-xeL|yn2#4w)ecxP3YUABAp%QO8)p9l&*rlE%sSlKARJ*
z_P1<SzYKj_Or&#%dxNEzQMD=bZPAg=>VVyi+q~?Wp>K<dbjBZc7w&!8=mmXS>?B-1
zTsZ}w{B1@>pl^$bbPTxqHLmA;*#>=Ebfi-`@zbxYu~!}Xwx~$w#cDgbJyTD0p>K<Q
z2A5Cu<79isc7>17x5Y#{&(4&oJzqXg1p2n<NQXn-S4Yy~&k^X`q9Psnx@Ec45bj>+
z+hQl;@+m4AaOI3wQiHxNCeoR{R%pNDYNZSGZPAg=h6qO!%lmw`(6>cJI_E1MUuF5J
z{)4_Pb^<ORk96;=1_GXcpl^$bbRIpGw7Q){Pl3KII?`di-KDU*x2_HPwx~#_YW#%T
z<qt7w(6_~o$K|vA_4e;umP!sm-xd?;Sg6e&k{nsV4}Dv7q*F8;6+P3G-VS|RRHUOn
za@vpk%|#{X+hWJz@+qHhx#q8q!(QmyVj`XKdF_haX3rd;Z;Os}cx2x-WjuWPpRm2b
zp^1z0e5goAsm~#S@p?!O9Cj=&AJLs@Ym1IuwgZQWbP_cB-zkjq$$&#gIw`kqFBtM&
zzZM)S(#c`>?y?P3xBw122A7YS!FiLr8x978!$dj*eWOQ?&Bi)_Lq|GBrro`<uNV7)
zLq$3>wyjdvx0lp{!;Z$~!&9(f#m?6;E5TtRoqq47UKjk1)qq1sIwp&I@*0EX?|?%^
zI=94EjGVfz<pmBq3YX9Gb384zE@MjIFp<ul{X1K!PM*5p(2<UO#5w1Y7svR)p(368
z-<mJ5bASB;haHK_$1C`Y>-6Slo!~H$&c9L-4nBQ(9&qSLN9x24o1)X~X>h1Wr{$}^
zDeaY2HaP6lxO_tPyjP**d(T}LOr*1L(ZZ5f<vL6l4;|@DN>1??B=67yhl+GgtZ6O(
z>F+TG4*L`?AOB#3FWWbA#(~2`I#V~ezq>tJE)EVI>6{$ryzb`qP8%F5(%G@}S&6i1
z_(^cs5x9JoWXG&2Sk3Vi946AqzbMw_{+RC&ICP{F;^91%w%@uQ94gYGm28-Jmh@#F
zIP8<SeAMdqb%n(>Gr(aY9qajuv!BcV(!rr49slocn=M~X-(~w7*KM`h_=}2kOl$7w
z&CY(?2M#+NmrtbQc{x?Bk9FWMk<JcIzA=U9BT3-Ukxu{DALo`|J}nCl73rM4alUM)
ziQAmRK7q^UI!Dd17Q<f&Fdin-DNYR^{k7Yu92`2*2`YH1rTO-N1vpfsBir3)-{Q6{
z931v>Ts{j@COH`rJUZYok&b}6j@q)uLtnw6BONXM+|a_Vb(_GUBAul9*+HkxdS8OW
zK8DMuCufOXv%-R~THR6O9YJPUOr#@pIkf*qz_>s6RVK4U_|G7nq(gi^!1)tV?|+W}
zbNaR^+Nj3wVzf3%hxq=4<_m&PvX^DdUGID(9pd`|Uf(j8^hy781#)gWipzP+4uy=F
z&%6C$UU4KH;=F?9`*v+q4UB{FSdw&z^SbwJo>p1t%TaKIkdD)Ej72K9!kfs{l--N#
z7F=yTLM|WTynLR@XIq)(`+&nhI?D0#hL_pH4dBp`&Q~AK56@n7^?)OdbXqbFx85}K
z`wGrj7%rcMN`~QU+(U!FsYW_!Pgky1=b9%1P6X1iv)1RG{j0_cjuFzi7cIK1B%7fD
zju6rjZ@A$y=@!og4l5LwbL4@lB>T;;J;7ljolLoHr=*T&?E}XH>G*4A{XB8E;5ax6
zNN1pEwan08qdnkEhT!tyi77P?`lfmfoI0cvRlqCS5ie~EP8`xvEqj>ZC0V>19807l
z>e|2R4*Q4`I25FF!Q^_jynWBzWkJRMBL<>@>|k;^6YtOVoNqM6(sNwEVIrM@8{b?x
z2QLaH7rO1{kn;LLM>^&Y%p%w23#-MQU+?&7WS12c>AdltCvC5Fk+mbK%hO23K7}2G
z%jd;q$2G1m(i_2HA|1*?d+Wy7isnGM(KEh>#GcYgI>h&wWjOOu^P(PWcnvuG>nJ=I
zuRzivu6xUMp~3v?S$Du0JB-VxZ(dmXu=%7Dd><@FIwtC?%Nm)wIp72!9q*0y3yS{d
zlp}BykdD1<*q!PQS`j#7fw+A3yuW|ztyS>cc*>E^k&5U7-a+lT-}wWO&e<*VLXR)L
zdJX2KfOJkQ+3=r4?`<7$#tz}~;R~|cL9HEo2~IiEc`-S9sO{VOx%CP_I_=qErpZnF
z0%1G~NJsW|xc@4Z;0kcY0&w}9PVv04^K{@NaLSR6#1a>u4QnhlzzIM)?UL6-RjsH0
ze?Ca(qYTGI(}Mm07|)nLE}wIor1@43%fA4p9O*1s^6Eg8-m~Z61Rx#zqhD*5f88-0
ztop`8Z>QTs1*GF^Tj0<>n>Jm2n;m^??6LBgA1<Gy$?P**sUh0K5ygdX8k!W#Njk*u
zP3JNMcF<+d)q)d-bU18vbXU&vS|Q%iDy94P)GlqLbJA~peldf~5F9?FqyCZ|(b>pf
z3QnspxtxjlL=SY2$NkMN28V%knx*VcXY6;a0Edorx*KG=XgZI|!I4HfeN<(gt|wDd
z;Eeg;^10}nXS07y?7$WCw^uS9QaGzgI>gT{6^(!W^mm$zf)j>xdbBEL`iu(igQJXe
zp5^Pj&0A}(4$h=ExqOK8N;m0g|EYA-37l%A^CN>@Tsu1T5u7lj(`@_8-XTWV6dYxw
zbJ+0Bdxup1CU7RbaQTS8G_z+(glq(-8tFt-@ry3%e!T&lFr;&;^tNR{aF8Q7%1CEP
zSgYd`0p4BUOnTz-xodg0F~>?O2%Ku9^E1uC+5QRRCOBb8XFZF1d*8(9d2p1G&H=YE
zzfJFAjKG=nz~$4HDQP|C8QTd?HPTsQI^a-WS<eC|4Cy=*jIN)J3;GF;GSc}wT&o~%
zmFWV`q&qI3S%Cq%$C1v4`R(K3$6sdTR3n`g`sSraBblo%9O;R&d+HJpM$#d^AG?6#
z<;Sw@$=2xWr=N}fo|&;E=@9R$A|Dh^N3^<k!0#JENau{==+c>_2R#qitX+>1zx-%*
z!{r=ha$vovoN#1&aqGJB^_QQfAe}Sc6+&dS)Jj&KJoZN9V6l!RNr(7*g5;XRcX_2x
zb6)XVEv9PV!a*hJ5Oe<a?77KxOI8aw?1Q*`N=lbi*Hp0Gz+obt59c5M`$lOH>a1Mq
zmY13(K_}@D_hHcCIBj{K*#+PzBOUGEi;f%@S=R!N5Yj0qy&s#+Gw=?a!2{%SCeEw!
zE?@n#TA_S!>X1%v@}<QqeylwL4g=}jX>1+Sx2awQP5{zLzEa-qmT)@%*jLx_gI6`f
zjYvAeg!hLJ7~Q+uFcRbm_l-D`4)MCkV|~A{XxfMk4%zV#olVwXYNx&);RS~eIUcuz
z`K@u(aDH%_T*>Vp;&|NEKAN1hh&~Ta9MTCX9lDuc7oSKESi!}JJ}O{D(y=3~*JdrT
z5%YVICB3>T|JIe>U)x0T`XYXh>y)oQ?C~~#OWQ=pUJJhl-xQJ#@!Wy;i=}TSiuT;H
z4NYzeuI+D(Bk2%xKG3~0W4-^xDlwDh$!}K-&Kr?*783GVav*kLobYpJq54fHo@Wj=
z(nvbQ@zjVfitOMLN&n&BQ21yh^FD>7vzRcR<ZAE6S9xEre98B)JYzeOs7=x#jwd=i
z+EJwAr*GHC{qsM~7mem1>F^T9WB+Suk(Ks6o_MMDgO<UUyT(XfU&Q@$IC+D5YT@P^
zj*G9(&j_+~t0w6zC5&g~#|ODxLG#OHAEXF5ekc+k`@A6LQ+3YP`#+190wXU+3N{K(
z`?iuC578MudWlj~y3aoJ^#NLMg591Jq_a_C=IO6bH&U+#%dh@rnUiKo(pf~vXW3=r
z$V)r6q;&V>WP0q_>Fq(%A%6Z@`0n4mnzfbx67maAdwkdEQzq#U^U2inYpgrjWp{Sp
z1K~UWjlY;Ac^@OzrGzeTkQA}ms#NfJeEIohZZRy94sjoTbu_fnJH&6>bjIBwvSaOc
zCP{}ludy@Hxd(g-2inh%m)00tjnk3NsL_G^F3C(856P0vzI|3PRHXB5VYvj~!n9PQ
zRN-)`ET5(9{p6lsJcRw@J>O}$Z-3$=ffAo(Cb<dXO(Y#+K3XB{07uH6$vfhl2N%a#
z-issY5cjiQCoM`;<O$_KukX6S1GhdgNjk)JFHn@P(04k)`QlEN9ZO5c(u1T!ydTmm
z{@Ix>t_`uGKbkFm|8*aYq(i*E%&hrx21j?j`*$G!>)u!2t))pi>j>*5{>x+V56AD1
zF|kHp6U4F|IFS2C|HY^Bx14u1Vv_?uuW-m$s3SQZ;<}%BJD~4>RluoHY0#lzab|7=
z(utBg(BFJsvO1#EX4%ilK8iNd@wj<Wd(vs$b7hU>@olDMcR5Hp#QTrt)<ZHB4e`TE
zZ=d8`{^`+nwhOuIi<l2}Y=p1oOvl}j_h*YO?=!NPNN2C6yiDNM?wxB@^%p-+8`Ptd
zbcp-eOZFMp$h+$c^ptmmC}w2yTat8$*H;mb#K-84-*QsVv$SWoeV<Pu=@7?bynvQx
z?KNo>mt~%oaY5}DA4!Kep1XSbm79Vhi+*Ohol6qt3vQ+3*2{Xat(LRFg6Nu7!OL;|
zf?X*j9pb!R%539#WYGTpKi<tN`Fl1-M38id_YFDM73;+W!nnlM-a2<Z;nTDv=@37M
zn}v;T-F{g9=ZQeO9KJZ=pGG7d;(o3_Cw<Z_weCU7K`+@OHBQQWNM~`+?`^wus;~V0
z;&QD@swbk!ncR9UBis)UIqrAwc42Jii+yOuZJ^jqHXq{e0NckM`FXne?&dt(Zl)i7
zJ6)ROyok@QO|s*Lzb@p=rd@1Yk>*~Zu1(S*<{a;oX%K%c%*Ae4T&J%3kP`<<hj@<I
z(6=?tceuS}s+VMq+&A8Ef~-Rv&+cNmdgITFmrYuiqz7=%*Q_JCUPR}*(1|{!w6S8@
za|+b1Keb^INJk}6pjY|Wrk3`?{e52^8dPbMbcpx)&Lxa{38uN%#P_EE=Bkl>MJ4GF
z=k=0mwa-J>+_Y3{M}b{W^dt5@a{HO+C{(AL@fx0OstbI6_44UJ8z$0eVUKM#zS<=F
zDzl-<p)TeuouspxaDD9)Np>*G9d}Reo4%61^yvp|KB9`@#gDtXr~i7D2t7Y9z8#y-
zSlL;R8$YYh|BTu*y;Pt29-EIIZT7F9spqb3BO8w_-xFy_HXnXMJ|o#B-9yH*0@6Z9
z1nt$2e)J%jGx7O#CAT9`?Lf<uo0iNh{k!j$DUfuC``IvMa7o#E$uifvLQgFPo>U={
zjx=FjuT)=d+*H!a^X{Saqr3N_2l$ZJMT@eIj>4-&s|))3f(?#F*f)_J4>6yOi(Jpz
z1YIZ%j{2xLrP#%jf^;4Sd|?j#@?;$n<t*JC_=}H*bh18e+<N_1_$>VHM<wYHulIBI
zlF#{>%EREWopAS!l~$o<8}_Z+2M!bIOf_AcxpY$@I6O4GJ4t`RFdgZ{)$is#!KY-z
za@3Ov7kl@figY3)Y~JXnjGwHvPOaDd{kxa#h|4ErZ1Md0wHsC~k1&1KVCH>`iFCwe
zFC1UA^x;O!EaR${^s_~Dk`8e{mqf~LbbV7x-MZoN3dM|sKhh)};{FjAeg5_g+n{YS
ze|P`R0KxzH7KY2GYF0IPiO8kT#ud|rOWg%^3y{t~h6GD*sZG*8?zcheQx4lbkWO4~
zqd}icqQ$Ev>-TeayZx3%I*jWUo?CWT)XaRkX5;)pXL!&am(NChm9*B7na9KQD^FL1
zmsS;!bcpw7n`_DR7~?wcge9{>)!ny><48Khb@%)9`kx|4%(eDh_pn22PZ%1Jbco+C
zbZov{`<yFdRvF_Oubp~-D}|&(9MA8r$_@K8R)6X6$(S7A6^>)sk;|Dlo&nJdyJL@P
zU!FM9``cnAQ@((tLmbbEMVSM=)hWBW4!)WdnewgmAn6c4&(DY)rq330Q>|pBS08#R
zBNjo@A&$pY#n@D$ckGqKS$?gWtHCU7k`D2EN(oKuV_VEXM3#kv;lR7AYzj$-I3Az&
zk4^`EFZm#7xOc_K=PR37G;-@jbRHiZE9K|<Xj@|YFH|$?`yvL?nVOn0HLHm_u^{+F
zWsg&&KaHeAys!2LU7O}V%RH1LRdysi>*Zo9(&5dTXimS?RKwA7*z3w~^Ws5UTt2%V
z+8?%yG`P!=aC0A@8!e>(>2yCdzR9^lDB;mti84N}kDEP^PR{q)wDzIx<yRYaM4rt5
zP%2H*A?AE4>G0$xwF58S7==7@df)qNY%eY!>cgaiG2gro)jP&&1<%|2vmEKfeo_+U
zPxAO{^CUZB!{?YU0VEyb{kciulS)n7eovJj>zkN0)CNnE4)MBJ8*X;hhCX57Soq-f
zsPSKl5J`vlyUqT%*^Vv=etzYPiPtAb+xhuOI>hlPcLXj!cxm(Hq!HCnmC^L(CL40=
zMf`ig%H+zgPP%?pe*avxZ(iLwQ%=$$jwh)iU)ugtgev35kZ*9~&ZGd64)J$33wd=F
zKQH|O^S$z^HZ;#IbdnBnJi3M3&gcieVJv#EQrKfeQG`m;A$}iZYL;JVuUa_KFaE%*
zHlfW>nxsP<&uN+Mso^4Q52??$)q^bpy9W1=TQ6ch-@c}%PO7^sp~!oFHxD*;W|4G=
z<FS@KwIESkSZ4gF`<W;IF79KHbcp-et*uk+2)BZk{Bte;<Bq!bQb;<)@hlj6GOqgO
zi(Yw{Zl_rISdAspxjJxQ+0dhV12UElCEv@OB!!Sp2kUlTIR8NF8eJAwutjTOt2Mdx
zBF@W><x-*L8A;PgJg3L?UehuK>6qu9>$tZ$yum+B(Je_i>XaqYdEI`q{zB{47Y0>(
zjBM;~y%j<_I?KL`RG5S$O2)5JFq?c(+`5}wKE%(5H%eEu1TPV`kFpYVNoW`sXOeV?
zIR_tE5m<ES_PzP8$&RAkTe#>X9pe4aowCKW{^Vq)i*bMeTV1c)h@?Y&o>r$VI`YZ*
zuTAr%+$~Y67j_Dfbcml1C3m-dwGh(atkz2D*lc%iXwZsW&cu9{y)lcfh-stWX*|2-
zdYwsR0ZE5=z3<UH7nj}3S6|p9?71(K;~|rzLmbb4i&c8&(+yHKy!x_nzNhmBI!TAP
zf9~9yx!HU5Ow9H40<PB$D@7GZI>hzbxz}gqdCS5V9SJhOkIDU9Giiy-S*@yOS*hvP
zl=CBxc|ME=N>-C}i1P~BaN}q4ssmgClWyJSN>q_Jk`6Ivr^4vneM6Uv8rqKLy?*H<
zX++W?uKT~*6}f9YEzEjHCY-zi8B^LM9pZS{$r5}stAb8O9@~`gAfN8RfpiWYnr)aq
z=iK$n&|=<L<)-{P3v%m4{Cw!&J2R{#x#-nD^<%t?{^xZ|Op?z3npgH@%VhDM646i7
z230BE>**vN;{E4PZd=pWwO94zClim{PW93>BIyvv<7RbjQ(&2Nv4&j1m3e*T+xSR2
z#C)vtbeWWO{@=W1&KTZk)e#;vCzmsEJb%ug-*U!Av;&+1r1LG#_ihny=H`|s^tfa6
zqGAuEbKLRS;E@f^rQk>-o%1C>*he=$Fau}M4404S@#N!aTbI#K231|0cp$X00O?Hi
zHmj`vwQL9+52Pa&q*3bXow@=XX{57q`A5Z&%A~`lYkT#tm5$yS+=a{MntjmM=Gjfv
z;1nPoPT6|jg~esj;CLV%RjJL=pIPieaHNsW=j!~P*Q~pK;0&7L@-ZroRn)j8<PS~(
z(m824leqP4a4t9=NGIgiPtWo{jpx9TMmocLrXFfeO|AoH&;*x{6QgwbU)A5wz$rjF
zKe}(mUl(}j4UPxWnPE<?dP6@S2aYt-`TWzScwy3~1>g)C<MQF5^k1|cQ&t0~0O^cg
zs5zY;*e(T*2h!0<*ut*+E^Z8tG|~~&vR(Jr{H!uKgGRV~Rv1g4_!#(aBRB;}r~g1_
zPU^{};^257orJCbeb{Hv^9dYjq*J~7zs-5t&HUgD8shSi98i$l%F6lw_aCJ5cB_Z#
z@Z*e77>@_i(JdM3$d}B`14kO^+#A&Ql`gW{0?wcTE}xS(D-Y{$i+>AF0n!nreqI>9
zy6+k|9!N)f&FR9UYqutXBaL((mzf7tL_etkXHXxP&yLIf!>ZN>E#MR&9s8Je4_B^N
z1K@Zdon>PC6)CTh0>F_*IvS6pCi+gs1cEcDhs$SM)b+?osY(ZM3XqQLc(2&0GcgL_
zcp#lmcBYR1qOvc5BaL*VDvoUY5w!OxID@*le701+)82QM+Z3Dvq_c#xg-85cZXUcZ
z#RKWgDwec)Mrv1qBaL(@2Y)xz)GNB0U;Rb@#W5T^sDsPL<tpdJHBNQ>;1nR8*k4^M
zcQ$VLr*S5)YTmt7hdhwZ>6IA|yoy8A!I4HfAu+9!4&Ik2;0*4><?~GXqej-*3nt(c
zAe~PYg7bBc-A}5y{AyR{qETHBq*JUG;c%SKwhA0+q%$rqVUeKpXcnA7ZCpNjvF%km
zxGr&mQ-E}w=l8{2beQ*An(KT~>pfXV50Vb?_qvH6CcDJL-`QuR=B|))R9mQkbUsbr
z=ep>*sw%y=!tUIb%EgmfxP0#BEG_vE-);i$@2w{35Pxrx)%93E{{G4JnN>ro9nP12
zGDtea-&+jZPXAlbdu4~ZBG<{<J$?~1q_am;YNpA1DFxPxLee3wSIuu`{wfh|aab?5
zCb^u6PV$@5&o?r^48VF7kaURo*u2`o8?uAp4mo=uo&43kclKSf+6_5NBb}u_f$|KS
z{i2Zbpaw1<m5dK^kB+|Uhn&liPN7j<Nad;02at0ZNr#y8(sPvm1g=veAZKNy6L@Sk
zp|@E3Jmfs7PA(tfc*Or$-#cG)cN}uACg~9O;WBa2Z#hyw3?b(Tq_f8=ca=+-OFZOk
zMA9M7i+k}l>%w`r3Ls}bq+|biZSRiFuQox>O=`HD$1i^A{bhaQIpiEi(jn&j*HiI^
zn~Yl}<ZOv_-aZ{^KX37JC*({a=@4@^F_~F$J3p`$a%QRG@=<*#Jjf?0=?ytEkWNd=
z!PL{cV$MU(G?ET6=f3QssMk%r=OAY)(s_I=>h$rc5huubPz9II=fZRU^J$}?1)iq`
zBpu@OG}Lue|HK#Nhp=98Bpu?qR}>c6zOEkq3hQNrbf#uF-sULp9)k7aBk2&=i+_EX
zblmpb->_b-%H(n;I=SIJEh+qu#bLb|BpqTtcQ&-Wl+VsIgY}}3bcpNaBmC~5b*sr+
zSTALg4skp$-#<F*Hci)n^_tv4E+3+^=%xO?O}aD&tXDNjhnVxb7QLMbr%hU5y&{m#
z#Y4Y)j!Kr*!+IH!bcpkMK5f2I$LpUi<jjY3{v0nf)=rP+f^!*~l*r{w%;)K@fTx^1
zsV8B*Qb;<)dFf|p+D|4ttB3WnB<T>xvn;l+`|}z95m+w@(s^Fd+m%su>NKnudpo&&
zi1VUNG<o!23CM%>Vj>+o^IN_h&I?{a&UB=+THyQ50o!B_$eBvgA?Ey6Z|#ln(mQt`
z=fQ2{@*z6Bt~_^*8V{}Dv1r)qS*ws*j&v3-=UkI-Wo-uQ6-Lq_u9sy0ZGkbh-@o8~
zs7%r!-VZOm&n<|tl=Jkvv*<_Zm4%xqBpqTt<})E)I)?popIg{l$>mI(mv+FFAg8QD
zKVknck&f6vj@87k`e%7A4>){Fs{-gG9pbz;hKzIEy54O8`%oI`Y>@5syMOCVIPAkQ
zMRNHN$5V4=(@QTupAWDPtC5bql#{KG#?qCr4<krA#Puqxlsem3F*OPI4Q-^uoBg$4
zr(D?r>Nhw@I>dY?(&heCY##V7wA9-yrOow8(-v|$6Xzv#bj(uj!Z}IUhjB<pvZraO
z0DreS>_a1x4sl)|a+z0b(p07k)^R=<JZ(`SMA9M7tB097_+Y2}dWD&7vJd;$?r2rO
z<+J8sDNR#qsvNG16p{{cUUteK^_IzvKZEOnhIGbjw*BjjQHh29OeN_M^Eq}nP3#dZ
zbpza2+4AJ_A>LO-XIlD&_3c98x~L=R5XWPxW%02rJb4}L!w94ka(YYpQ|8wiffGxH
zc3h&b(?&W;QjdNmy#6l()}4c-LtJ-rPU{Jk-~5xX?oD#!awa-Dq4T!{Ex&pm?uRKz
zr$(jqvi+Cz=dgchB%S}YUfG#4BMD!!=bon|9pbzqBtLx3=*u^S{lnf&E+67}s8TmR
zYUdiL!2OVkbiBJ9*44c&Ka;or8m)uJScr~vcnv&u_uYS`3ZLhxBpqTtFEif^3ZLRO
zgzI8(6E2^PUBzDZ50r|{#3p(-9N|+bAn6e6X+3vl^nZM#V+Hs5Fp>^&UVD6HcdDFh
zeFFD+ZITXg-6MK5e#8uO{Du2G2htG`x)?6qQ=$#$(A90k<t(tqE4kUT@CDpAB1k&K
zd>qoRa)+zg{(}345z-N9ny)lZ)pZ+O??NOUV$Q94ZHAh+6dK_=ZI#94<8)j{r&)fN
zJ?!Tcq;s+)`^gT!n+mWGElE1WoFBU~c^}<jtc3NVAe|G1XBw}}=3jvIV#|=rhd7>+
zGEvds442QaUIio_;(FOlF!xE1NZf$+@<2M*v+`T-UpciE)=L`c^oBm(bc#o@4RRio
z#^sY$<1_kosPru4T#j^N##;Y6=nrm$oWn>u#GJq0a!Q%EV>$<NRz^A|g9rOLB_17t
z=hvhZxqOJ@DL#1m;-dJ=bI*%vq{Dmj!Rl1j0V%k?!bm#A{XCM%71SYKesJzSPtqaI
zYuBKHm4)7ayI}utkaURS`E@F%oMHaK4fapd268zQ9czU$SDmdJSIvDMLpntdFR!O1
zeLfERkVeuW=5u7<vqH<OkNf97kCAkU^HNi|GV~<)tu^dt_Ih&p5XaM5|0tFw<xv3p
znTd2%yYx8J=k@J)^m?<>wfpZA=}6~RJI5L^L;VkMAEP3jJa_r@-5)5ma9yz1k;{je
zb9KtG;CJ%_5@0_UAe{i}<_#BOM<}qL1CY)Zr49R9@2skYeW*;*A+Eb%jpq$j-RimD
z$0pa3%ZKQsxX^~K>2_X*^{PfXlACB%#h+S>VZFjgI>hz*v+~uRv6LmBV7;`FPQlNa
zx^Hpo#9+Pnkj|Ukc57o&1x#VRTG!xmZr;T`9Dc9A5U%$Wq*GmYQ{`snBVkxCOQaLz
zzb)T$L4+Qxmk>#ZxLze0s;{N5P|w3Ts;t%I@*z4kIr+EmjQm~1dih4-j0E>LCepDr
zb}lod@F{xC4y%9n4+-@^Iy4Usp_M#_i7*}or1PGma8vx7z<3zXBo&v>!SW$h9z%gD
z7*8G2;XdHCHSNY4IT%kI(%GgSTq~_C=?Uk|T9R~#_aEP`hM7w*rq_TYgml#Fx4g+y
zY~lo`RgzrJ#PM+5zi%kqe)0}DDM*K3^J||<y&4ZVmPp63CTxi?_e485LP*C;ak@On
zD6$ir)>XKCwmtm3O84MA4{%bDPPNj-lP_eJjDur|bPf+JYW4b=`Wze~q*Gkze%D(>
z<_9>fD{=Yk6f0Z%N<nQtI4MZSf3n(Q=cz9O;8-G^J|2;n4}bcM!4X0_>fiI0@N(VP
z1E+NbE}xrY;(^a5v^2m;K|1+dfk$4ciEYW9?>YS~GGN*g>2O|i_w`ass`pe0nGxE!
zfi8q}I=AJ7R>-Pd2B&p7E+72^AuEptwaLIa*C|M+)V1yE{qut5x3qnzO2>kYEs@R_
zg<m@MMkhnS5kfkgOX`0q8&u0e-*M|QTs|=m*M>f+<4^}D1?l)7SR*jA%_IyQOQa(_
z+1hRJ$srf|j)jm;)yi8=cC~MZ!D*Gi<-@_TS6^qT<W_J}kd8z4%E}9TTpXb<q82Xu
zvG|fD(lJ}~d)M38?*-rpAsr7x>e{pFahc$>QgHdSxJ~-=*4TR{^Qe_*<sNcMA?Xl*
zpZ~t=rEKyPyTW_BnS+sFYCWB#L;T!(uk7@1@ox@i!I4Hf^177r*1s~Q;Eair%ZE6g
zkVmQ-S#sQqz^O($c4xD_*ni)g0Ve|K+;=wQYOr_d0mlgGtPr_p^mR{M8#qEp=X=KI
zpb{150B~4hxSWd@x)erSoeTztiF5{Diw#DWxATMJfpnxj-bvbjYkCZh0@A5Z`Kr6K
zDoYETNl{!rLsL<wR(RB^f>VcdG%hZjd2`P62{>^`M`g9-`d*6nVsI>x&SQn8m*P@x
zW`aXOI+r8*gB%__T?-C-DK6*w4^0~jnWMen6d;|$@o7G}`+F`yKVtw%hxq+V@|@0~
zhh>r{I0{H7eBttg@oba1e)F*<<nkeo$NH8<qOW?aK8&Xv>72^6*QytMst8U1(%I_T
z=`g$O#C&iRkWTb5+x6#vcbI`QCW6bSaANY%hJ{Lf;FKdBua%eWmhY{%1t$RM@EMtV
z{FwJ^?)@zaNJmuo+#l+Gn=Ba5m@qD%mf)d~Ce2q@z$r&MBJ!R-vb+D>04D(HG<@Eb
z{9zq)4LAx&C*aP4SNRmy4{*kWaQOtW?h17+^|Jt{9O-;p#o_;HFnkj@0Z2!z-&3bn
z+jj0grhs(DzloJj&^ORvJY#~me2gCEAK{9+J=fn|j&wfhWj6Yqek%<9)B#9G@%^=n
z>y$4%JmwVlXF`AT0|lg0Z*#)hK&~|Uqp!tF{rHZ?vBkK2j(!T&+u3%s3!HMK6Ob3k
zQ?&3x95?|;NArWDvR|zG3UCyV&ZDHp3=y0DgB(9DYr3@`<sB2i<@0hX!PxpXUjy`s
zmm?hs;UEQ(wYo>Z2|zjx3MW#MX5)^6qkwd@LIUz+Lq+z0Gqwnq58tOl9`nwt?1Mh>
za-?%M;x<dQGtdc~0HpJ>;`eiY;YurT6p+q`CJ(Wfr?kq!8C!_UhhlK7)PA(!qU@Jj
zzLA}|<K;*vq1jK}t5a(MH~~m!nL|duY3Ku2a1@YEj?Zvx`4!VpaK`v?`Rw;NF8J50
z%}(UTA!jib-^OyJW4^h)db{_3zrYDVI&vM#HP74q{lQT{I+7)OrmpF};|FJK0WP1B
zIvKyf#!Sf~<y-8XL(MzOk&f~9RO8k1t?$7JKsskuC|kGMdX<5rfOIPPO4$OJc{hVI
z#)r$NTW)#PAG_cgiMMA*HedE`DMvc@+Gm^{>vIRe2|zkUo)@QsmY5m_a@%&5%N`0;
zAn6c)M_LkbVB4)=<>5G9p0>0@i_T5*lFNtacx2706`NG?f>VcdYWC01GrPg*4o)1>
z5&As;_~%Yle{d|3&K|4VH?s6rT?B`Mbhh6cI(tIR`Up5|9$d~E$KO;gX5^d&rvT{$
zemXGmOHQH?oB*T~{qA|;O3q3(aFmhG$0_$c4V~T!;BX+F&;=1$7govq0jG%@m-G6e
z8o!%{`NrU+ARYdJ$17MF!c=f*NM~fr^%WIIFA0M~MLJJcst?Y)w<i^xK`vZAjMm4B
zX%Cm!gHw)ljxE2J{Xn-x6r3=mlhI~!-{$p%4LI6JXVvN3n<F<ha)85!bWSG}j}C5B
z8V9F!J}&2q3%45|wJJ%1!$3Oh($ROW)^54r(2>rs%kn!E8Ig1QSsLjm7fc1zFIzDL
z;~C?`<>R(dqTsXSktT4ekxuOVll-mPlm*~KAf3<me<sN;7%2e92<be|IzSE84CVtz
z2<aqk|7bPZkz{gM=A*@!?>HB09=V)}e@B}qBk7aHr`Z5b0n+*V$$EqBV1y4iVMynD
zT~sI6^Vlcg7$KdH(aL>7v))bMP>{}rRJC3I*~sUBGsuC<Iixvjz1r@<QgEt~&UxXx
zubcfZz6U1`>7?mSvbav$Xn;dQI{p*675Y3?qTom)9UF&VmBqXveBeyZPR;(`e}rR6
z|JQ$s`?;)U=wFx4Ofoo4NJng?f?oDI-z0DtNJsSg;jGVo&FbKIAf1wo^0@B_&M&}G
z#yV5qeD(@ec7wx*bm~5AllhnSzz-bO3~s#wrzF>;kGZ@ArvT{)QB?NWUt356Ck*NA
zE$RGf-KP5r93!L?^oF{(H}%{Wa41N}`9reRSxLvaeK<Ic%h}-g3sL3UZ<S#@)kvpU
zIMJAU!{VFZ#33EJ-1dW?{NH^BhlX?xE`6USJ<*U4jx^F)D04(7<Akp*IFnPjoc|U6
zHd#TNh}?atk!@G7Y<?3-hxomFYk}o(qQCT(4gazfg>EZKr68T6LXj&=_wA?;@!_bt
z7gKeQhICrl<}s%4JSBJ?$5tF(%_~AB=@9>(+w)!1Mwu`F@dkHq<A`jharQrQITM{C
zfvp$z#VXhOT;HIuS5se?iFD#`r9b;@b>Lco^Tck)%vdiv(kVIdA@t4}`Qe%+$4*_(
zIUYnM=@8#DFm6%#s&kRR&(~r}FWj@F;yI8`qg={j;eXl{_4l<d=^B3f!v0GxXX5iz
zJz=NxZg01rn|9YKD_yHNQBKk!?&l8faW~zoIy(8c?k?=PB6cl|q(fZyh%1~n9Ex(O
zmOUd<Ce0#-%1CG0vSzX7%ny2gtk9iD?heN%|B%avc>YeRk~YI`7wz{Q-vI3@#}o-R
zNr$-ZIZFD?pMHM&!A{C9=2>A#tt06W^YISS?6|dOa?nRmxkvu2<mw2dv-8NeFXkDt
zdkSU`t5A39@6{&h5YHofHnwj12eZh^g!v>}=RU_R3Q32!e|`k9xkK+}-OTk`nJK4w
z>o9wg+<FoBGmDm2)Tvb7`Sx<I?C<!q{^dxA^VyC_@s1jGn{x#}+M-`;N04-g^UAkS
zt5X!GWOtw1t*W!e`=b#_hq!;}9`pDt%PiWr%sQ_7y(hU>nxsP<Pwamhar#HE23Ezr
zdKk_4b8T#bT+YOOnAc@<p<*KC?e=1(ZjyM+`*Ni7t=O~U;#-b>9!nYL(I4)61CY*E
z(S}bVuAQa4dG?MDQ9m3MNIJypUCJwlYa+(C7M_C?k`6H+C2l$WXMfk1z;lrG8<+E!
zx_~ZS$E}9&9AqFJ!_T%$UpagD!E=y?bZkO1tSLwP!{IqdK|1S>dlXgf%sOAB5q&LR
zF>HqQ3zrY$&6VA0WviH9dq+o}Q216dNIJypBHJ%wZ<bc@Y(-zzdeaM)f9Xi4yXsfc
z^^Ua;tM|rP{tX%8ktXR7&zXIeq#%?n->Pr<WYxi>!OeyWBporrH|Py2B5w~@rp69l
zqNU2^oqI|)AL4z!o4fU;!dTb#nc4gAFQ!F}1&|!iLc(~|!`Q+pyH`t>>JE<H7N(9z
zkaURW-tvF>)M`;)_IaU@(to?3YAqr=9^$(5>73v<x*)Mmpz?3b%EvuRlu3?<cz<3~
z?4`zQC~&d<#*v5j<NaJHBpu>-!uT1^K1+WtXbUKQxRuJj!Tw3^x)3Jh{9v_t&@vlO
zff$kOw~42u+NdPQLwufwXm_TDys3NrGAwJ~lj)T*V<g8zoR@>9vq$rC(P(=&kzvWO
ztTojn9YMmphQ!-V!kCL4RMZq@Ed1PPgCrf|{aK^IxaGa|SIM#f-zPus+utc5=@8dF
zV!gnRoZlSR9iIx?`oz;-#gTM~`#Gw?{E@4w(ymQ%a<{qYF}uS^I>hU=zti?$&TM9P
zbYzOkW4l}nOOg)pIjB>8HdL=L^;^#?-BaTyhqfyt9q&b}6*C!YN3+bo{n%r1A&pAX
zA@0L-hJzIg?@hX1?g>t`v)lcA><78)VliR=9AwuNei1Q{>-v34ciQ}wB8B95h&h|J
zuduOO+~2V3$GObhLp=-0j)%Apv&JrNxv(iZr75$On=jiuw4CI;h}Tz?k4wL=ir2g0
z1$O=cVyv<-q$7OcUR77=QpJE?-sNo$quaDeI>dQ7@5~c<r1?6wt7%ifXDt^m4y3dF
z{p{eY>%ng|Eyc_-RNYnU#>uTaalQOjgx<2_D1T?xeaC!D-+&E+q(eOS_W5&8yMvvD
zOK1}I+qW!}e33%ZAztrv2D`|;(&v!8?`<Wiq^^$<Bpu?s?pBySG~Jz>HL7*Va7!=e
z6B<c}czwApQr%q4^yD+{%lh+BrA<wmq(j_?ug<?WcFpAZawMa&&q<&rVC*}&^;$%@
zPJde{KDS<XFU(&`A~A;IY|BS-Jj8vNppo5ZLh%kNw=0x98olRX6Up%qo$g_tl1B41
zKbikl$686wuZ<(=5Z9}7&$H`sy$`j*U#~NKSK2R1C+QGBM=eqa*u?$z`R@RBt3<J4
zRA~T7hq&%EdFpEEe0h#<3zHY*c3%CYjda}4ZVEWH&$sO3P`=%zi+UG@NIJy*qth&~
zJa5!R?Lb_$gkFg67S<TK{X@LIp1LnPqc#wz<Tr8XkifQF=_Zm6@i`cK#p{H>GtXq2
za!EorOK_^3q(gk}q~+~#p_hB7vp<?$TDaiJRkHJvAzT+*kBwS}cU)vF@}(c2vV3R8
zBAGMsbJUbt-r@@p;YHsT9eDUvG=qoi^+o*rGf&R*znU2P(}8ssgE}d(_JbtHvw$$K
z?!|ZCW;K5Nxh$yIf5bpEkgP+zPHW2J_hy>=>Vi{1ay&#wG}FaQSuijd91o=9t>Mv<
z^WPr@aHNq=Tl}}zWg<>K;0%)7hs1fgNNv8<*;XZZ`seTmlk>7s1xRP9OSX-&cF6{}
z7rPuLrW!wcAe||<#7CVYm!#MFs@@l63qO`7=@9RSUcLE+4?XD1K5j^R{qy=i3uTfH
z@&0pWeZ=GM^4X3>3y%M%DXuZVLDC`S9B{<he&ki~POieyr+MOEUe}G1yN?mald&ar
zzDs}Yn0qFtp7l_)WE|45mpB^qi&fLBeXS@b+N8+WlB7d?UYxjXzIxvEw?Y+J|IC_>
z*qo-4bcp$QZ!U2?yxr>RM0}uQQt`bf>=9f()}mLe+?TU;7DX7w7u=RfD<J6*$CK@@
zKe_tZ(qN4!q4rdN?zJ8y9pZX@c=hxx)h_V0rMS`}fn>EA1(FW&`SrsyQeI~ya?!~(
zLif~-_+6+Z9pb!NIu=dK3zxol(XTxd_0z4M{f%7C#OL7rlPkS0S4(ZsT+^O%VwN7#
zMA9LSXDDf(Tn0zFZ;8vvN=N2wZyZU7_}q~=S+8<OBGF>u^wGUd{hPu)NIJyvG-U4E
zGX1%0{m-Jm|GjFLSS^io+RI#hWCu=mN~m-SJ_vkdGB`{wXX1FKwWj~6O|H&+U^(n_
zRU^ct0O>p~tarAZQF9PtZF!f@C(H0aIt*!_>DFQ1A9k+<I8Q8a4wNS85U-2n&)Y7h
zel}0NU*^8zw?Rzu*bpwChv^b#D?0Rd@bVwf5?5faFDK~`$HU7%6y)qA%vOHDU*X)4
z_b!a2LtL-Shc_P?n>QY!2(Hi$>$>fvjC2xv6Q1uVeIP1+C#X}uyQp*WD=weT3D<Eh
z!#hK#pN9%IEWcM*jdV=YPHtWQr7Q16LmF4Vpl^H_Nr(7-S;ymq#@SV}y0TG=^L+Hf
z-v*F$h&gYYztgPulUD07Mzv6M@W1B@Bpu?qhbwi2+9WXgS4x@(9@pe-pZtQ$*~M~9
zg|D{f-~y*6cBIJr)72y$;`4Mhr|5({M~{ibs+-?m*frDRNIJxPk}9@)iAD1T#(!JO
zNN4J(8<BK~<2iLlYTr-3!^PQy79x+{X>d_UI>hg}F$eDqO!6Ifsm*K>?7WkiI5vpO
z*~vX&vf!TA>1F?gCHG(WKb+lZI8^`t`0*i?$WmmF2_ckyUmA+22$ele_9a_n4MUQp
z?4q)aU0IWg5`z{}_I({&mI#TE_<jF3-aglL{&&vx{@nZAd0em8^PDs1%u>1Pmq9vH
zxjPCTt>c$_l{DisYnaO2ARXJfqrnHwRs}`k2UtJrUYr((bOLpTlJAI4&7HxVFhBi<
zK6YsuuFuL@yGKPzf-j1XU#m$?5Lzxn=^(F*PZC@Auo)Aoa~gz0drG5<d>|c;2Ch*P
zj9piwm4{}2YpE*^rGq@5-9=vx&1`cR&<^!QM&NHHU?3geV9XN@HM?dFTHG1K(Ldd!
z@8~)suM4{|%{RS%F}E8vxEf6aeo@9kIzM(Uu-^H;=~j8YovEVaE(;!|gY462`t8tZ
zuFo=!Z1qfOH!hN}kd7DqMs1N}@$=Z0zOP4`sVT@)==vbfpYhdK%x8>(l7UkI=`gR$
zMBY77GzT0vNQd3Re$do#bObo^kdAXI>!-9~K_=i}Af2;=0&f2{*E)gII0@JJf}dRW
zqwE8Mz=?%)lrNFvV}jx>fMX2loR7{MYVMX>01g(?8A{lrA6iCl37nY;xIWmWuxx9e
zYp;P*2I-_8(;t-8`aB67A4un5A;pIi8o{N&!9hB`(=E4e+{1hY4mG6X=ANs5()nx(
zaN5S<I{OxTJ{&&w?gnsDARWa}<|ru*n{?pdAsv}s@(rulf1iOP1nDq!FC=8u|5^dg
z(imJH^+Be4{z7INz^R0E=1oqJKau2j_aZ<#xJqKlQB~(lU>+?<#|g`QBh6Mt6*!EL
z&dH$LgS5uUIN<b=;W~$TQpQu9>bKnRUg;Tp|6rJi(m~!&L!xp<Jm<9c0S6E1)X=Fj
z*bXbY0S61|1Ycm0HBeTWdvLtF{&xAhZ1O0&KFGc7T~m{DUWDD>n5<G~5;LVCqI8h=
z_t&{If%b>i{{hDy(utG}n>Qe~mtC0A9#;D)^;#UIgM1#F-ydt>)l7Hhmn(~1wP0m5
z2Bm}Sqo7#3LS1;55jdm~xXw#GhBRlB=}*iVu4;Yfocu$8bi{+-%boc9=>~9ckWT)$
z!1t8>bu71;4t=|@PpugP=~#LzaWvi?%>u`ZG>onf^8D$`Z7811``ZJYa7gE%PsH7A
zzr)6$j~+?~dE8}%p6$<*TvP)NBcwBW#*y?U{2{O7JC>|}O7qffL+JV-=gA)~_N>&r
zciLp0Rh?A%zrQyX($Ub~aS0VVP7I8=z~mKBr>uw4;Xr&JCtB23^Jl+E>i8J{xax7d
zZXZeqdE9l6t9%w??{Knv)Zrvy6fZ+W=^RGP^U5;v?$Ca@>%wPUy5hs<zRjR?kgppW
z`xaz2^&VJ&<5h{$;Y7^CB`Nw)P@|T-As=R2b@hFY7RvL-7U2|sci7AMp{M8Z!NBDD
zprVK3DDM~I2<IvHzem!htGxCuAyN1%;feMr@5{*Fozk!VF{;!0*uwFoR?13h-%mG`
z4)Sw9o3l<k97{>07sqNt9PGX^qMZl%z1}xY*~|!M3;q0Fvp5H?^RYfC=Rtm7kX}HO
z9Bi&5?4EQ*yFzvjYYgcOG>xw;q#aQ76R$G3AvZN8kJ3SYK9=n8W9{fW;qAlnD-ARh
zKi$wiM<HJ~{N}wLdguj2Z@+l_i7xNkR2$0k2l@L1PHf$obgu>7oV}%P>Z+y;>nI)M
zUgv6sS#nyYN6J#G4$`mriJ_eb>D2#HuHdJmmK+-sbT0i-qh5e=9_06EtT)mfMSGGC
z40oUB&p%inpMugsUKhuk&%boWf5Z=el}qQ)S*}6*oQeD%Epg?BO@XG8&Ev7jJSw@s
zqv0s$K|1WRmqjXnR$c+W_j5z(AkUwy@P9!mb#Z4Gb_6Q)s;Qo#ef>c?`=|mbeV^8^
z1heNb+_PLhz6AL^wl(Cr#@_X=qE*k}N;35)@iIs!ljrqV`$Y7JeB-vXkb{W58>G{@
zsNGe0d^V-yn9!DneW@+l=T&5%r}?>oHo8)Qj_bzK!kdNWOOVfFsw6$*zJh13t&6@h
z9{<a>Tn6d5yw&E(#GN<$YZo|Nl4zyw2I+ha&v{dtBJ+|YQz+J_IFu<4>3G)p&ZU3z
zolU2_FIAv1S+|7peu{kF7-OXjq7xB2MSQBx8|8W7StUvbdAum3o!^j)b1FWZJS33z
z<EV-cN(VWQt9pLJW25z}!TGoL^M?ss#-VhO^OTBqcE!~`(f9M~Ud&|9XU0G}3?}wp
z>{oohe-UzAwfRRAOhWnmgPiA8v~BYHftdW$EgbVl@Y;0*ln(NFOsn{`1I-^Ml@}dK
zl@$`F($PMzB0EnJtUe7pd_MpjHk9)q9l7$h7oQl{i(*QiO%<#!d?OFSJ<rn&{bX(q
zOjiXC5z_f=L&@N&ZkS=-L45HyeC{6}()l298B3JZ7F>Uu$>+!ZHVF&qMDvf7dgq>h
zdKc5L8!98|OCEshQxJJ3#MkS>o<8%lCjwaphlr3)eNdfjP(>hp&E@!pGiz((cu41x
zZ2o*{xb0ghfsb60k0Lj)C>`YaJj}VMfBztr?TC2dEoq7V_e=fg`XHUzYoTG2#!5yN
zVO9~i_;*qyNasqZSE$^z$c{h0<7=0W62)RsI>_sN+-R$IB_`ENUs&jvd(#OPJxJ#s
z)eCoTt6#^SUNSp3J(xvigmh?(tpw+y!_4Xj*h{IY#!j~Nq3ev?i-}R4JRT7hp|Eni
zkywrW5DV$>7@wg1+FF|||2QgleX)~957MC;7&SBev4wH@YlVA}rMAro=}@#hr7K{}
z%hxp&i@$2@Ako%~t`G8klXNTXo4|07Zr(F}RJSj+Ju5@$AUi7_D-M}@?Eg?bD()=R
zkgA>=q_gnx?c$HlEBwzI4>?#o!PJREI$}P0x0DtpQ)X{!ywtH=zO~eYt`G8l@u=xO
zP4!=f-&JZS28+Yu;wn)($m_jS=FZT#>*Z&YKQ-U&%e?qC9HoPN9~b*Tviq;S)`al+
zCvjZXPYlXXI>_UWD>-m|=8@@&T&=3<s}sgFu_ztn`?&q}4aS?J{5x@6s`m^UT+iF1
zbdY}@#K4s@>2w5+d*;-Ez^ax@qXd)=a-LUCafWpg8%Z<co}|sB+ULe79VW!*Eek7}
z!Kne%m%)9x0HuRG?v)E|3J*&s%fWrw2c?5N59=-JN`@Tvn>^wD8TFl=Ll}qBL0+d$
z<*&>YTwMMH|CkiTpTGSS1L=6VZV9H^T^0bpS0{C&yS|X~gxIM)PEoFr01g4ti4r`X
zZ{Ol3S^hbJ)7(Iz6bI?}eX1NLQx0|j2LtKU>)WYmjTtC<4BzLYdd@IT>O$8CdE6;4
z{Jy3T;f@DRIHZIBOlQ<C(IEsJJxIrs?U9p8pw=pI*dU#Yd)m9PChjc2A$P*{DXf+5
zrC}=k2b=;(=bdiQ^1#=c2;jIuI#-Xdnrj<6w|rr|P|xV+bx0nigS;-9bMAM<p1;18
z7wUhj+0~Y3y#rkzq~n!Z_3K+m?T`f1vP(xe%jHT)$I4|(V0?k6Q{p^!L@$JP!Uv^;
z{M@)pWc%w+AD_#qLIOnYy+^#<P&&xhRf_j#_Mg|KO*-gv|4d3Zb`yuvLH6<EjcHkW
zJ|ztt45Xv%kf2e>`bH5rq;|ODmGP?@zma}k1ULjp=lug-2PUsya=^hsI#13>4yOCQ
zH|F_~%68bX&kBRmLEe{NkBceZnmAh5ys)rPJeuRx*M_bS^7CFgp1_QQCqJ%fx~q=J
zhss@UMCl;^JQ~gEe_B5L=AjGbr-U{#f9#-jkmnD-E+zKHnDATPtlIrme}}Jyqnron
zv@}!jrVkFMy|Qbj@^q#=uZ7Y<c6Qegdyu^~x}R^g^`WJc=u<382RYBdpdZiJc4nfC
z{?%>pObxD*ThSdaq?7+<vdlhfunssxNaum%qduj44n^SLAss&4oQ2nVdn@S&$?Y<I
zTn!e|G3C7J8h`kq3UJ6RaD5cCg{6+^Je_|O@VDC6SJ;?{(m95BUgZ^R%CXk^w8?0~
z(B7;ziG}UM$g;DwuZd#`T&J*o#B)2v-}UYL1I|O(K0<D$EJ;GO3p@{kgRM>%^`h;A
zye@7{eR?CQ|7UWa6CI&JMWERSWoP8~GM&A7n|~(8-ZT!^-`#sBmw-p<Am4xW3Tt6&
zy<bL17BHH4=_SzOP&&wY_NbRN1?090KD8KAkxklTBZSgHUZ+!OS0Z<GLib*O>`d62
zbbmYZ4c+;Sd|q9SF{iX3$#Dax4ANmySFWx#FT(=I2hx#zq)k29%H3=^bTRD$clc`@
zN(Xu0;XgEKf2Or8{&MApBK4PPXK|Dc^10<+72UCe<F+hKImGA?b51G@N(b4Qv+2~4
z<Cfi@(~efDFN#lGYW#}scp>MB)>r&!azodIIlN)^h~3>QDJUJ}dHBG+w_Ho1yHR9(
z_92s?)n@`q2f3FV_qKxDp2mORcxj<@kms|dyH^%VNfIMCUeu7z>Etx83VQC9<KJ!a
zm!8{rH#Vc|jNI!~P^O7rYYB0iDEirTyDcsj(pj61AKFj1_bhn7Y>d)D_K`E=TfOr)
zYza7Qkj}L|5uYnqB;0`0_XS-a<UFbAj)_i|-cNy(0_mKhHkJRAz3vGdV@T&f1_#63
z(yLcSZF;%fd-wiggLH_MTs<47IikS#DSb`o`XJAr)1Ei|3=CLao$MC;s3Ut#oruz5
zL_8-9i}_R6*2Xxo_2kDKG>M)<I}h^p&@yDBU?liwxsv))^0hnZ7aLK|gFNoXahbF1
z371}lbT+5)Ptgm9Lpn3GgQbxipKEjEKRPvAKR&F5(n0<nNzhkp_M!LOi*kQUOkBzj
zCu5Wj@_nvm<&KL%z^FO1a*KHvPyQD@ln$~Fv(xmztDrkA%VU@B%*WK>7*RUN&oiUj
zt9?taURt^Kw63m!y@DE#(m|ewmZsa8sTslNX^p7U`l~E2388e5&p%vBccQbsLPoPj
z3cr@w;WnvJI>_T?a!X#v?&BUR^3CW_%kEeOHk1zX?@Re}Y~`s?@(31uuZQ;hLH2RY
zQ5SW@7<IMw@!UL>`}R88<Arq6LqozI?kRt!u*3c6VTR9iUnAV>hIf216XV6VogeFx
zezj|ju@g}`$oI=O(VKO2H9X;mh0f_%Q7ks2b&z`r@em__avYd`)n=!tXg*+Ik8&R5
z_XTBzZ;r-3#VfgMkMPSM=<pz*bdd98ak%i?%g^Zg&jh60;p(5(Lg^r{(?e#zzqi)P
zWfseH<F)O+rBXvW8OP<>9!GtRlYUVa94pGWukkaw<Boi;i`rgFVZHWMQKdGtsK@(K
zc?wDg`8rl@9n+<v5TUUgV3dM0-%}Ke(n0>7cK%M2c0RBFB<&`HS&G^>N-Sib!2>L}
zBQEfXKBMJ0bCxodpNw)I<ndB|d*N!<KFJ2rM=}1Cd}*viNT-#FXy=yEDfTqyLxtIL
z!yi1PGxu6liuLo~{BX{XvK$Lh53rEV@&X6(j=sm)xuKYnS^@Dx<WK0%A7md>gE2|d
z!$G3dd$kgTi-*{Wkj_&Taf}X+ohxwgkWL9X|CIO%X`{69tbWmghErHbhoP!|>*(Pf
z5#W$N!u4Tj>6Y$avq%OG5z<LgOHuv1Eu{+_Jfy?Vu+A4AMMVP~ETqFBST+_fonqir
z@VHS<=y3%316-eTLb?Ua=DO~{AwoL&b+Q+F5~$LEgNJnb-Zi|SNcz+Z94w?WP7$5=
z)%4T~aL5gCeIhfcn&$NVsenU-bj)Il@Np*mR=~kSI+l1Tyl9b1AaJmd4p%nr!#$}R
znZO~}!}S@Sems>qFw6}cBBT?@$-pT_os|F_Jf!pUS$5aj7EdT}u#is2K>XRof;}q0
zA=kn68JVe`{8^J=4ICn*6DSn>gU^)WJ#g@lj*W%Kd&RkVXW(EVohtr{{+`|?ec+Hu
zaDCeO*cA^wOuGmiBBUcR!vAw(^U@G-@Q_Z{_X~3-AxV#cgN1bF=a%<4T}<5q4!IVt
z&)@9NBEi46jetXhbR4`NF;a({PXGrG>BQf>{r+9eD?8v|A)V9jm?<(ZVlwo-uD)xF
zCWex0;QCNSf6Wn=VL1mJBBb+~;+&sD+XElq;2|AzrB7}Pj8443!9qHmQo5J?U*z2f
z4*5M?A0M2270LBmJ8+1Q&hG_>{gYy97l4C@bRzaQe_EbT>jn-M(m9)anx126GaoqQ
zYPdcP{lh++LuK~BAwoJ-`o8SbW$miK!9zN~zw&6ley;ihI9N#M<e=j)Q}Q4?aLDiA
z`phdkrQ7>S^8tql=@8a6*Q<NqmjDM3=>(>S{Eo^NF$WG7()swIozCG~H4ZrBw{U$Z
z10sF>uuWHiLxgm!2qPY9LmUCX!9zN}clbg=ALac44i?hk2wZuUBHFQg9+Ioz`i%JF
zuDpNr#R|+rgmg65`lQpU_qYHD59y4BSa(>&=6nMV7Sg#KO!aj<kDUfM<Vv_c3NA)G
zqo#$Kz#&39{Tq6P8Nr%QfP;s0?ya5Q_h`x{7&ur+r|c7Bb~fp*25`u4;QAO=+}i7%
zYCQoQBBUc?<?)R0I>Zt<cu0qyBrPX%Q}rfru#k>aFYlQt6R%|8kYB^~A#T)E2=r6^
zcmINP(yF?~3_fU$gL&|fPQ|>&nQgTsZ{T1d9Y4QQzi=gag1{lag6ktQ(#$#D7UBvV
zBBY~<xxlN*5>N#kJftJz6F@hzF`W(^ETp6MSoeFE`C~)ikSpN&h}joSGTuzw3mhV(
z6TH~p()Kjb2{?F2XXy}Awin~~-RBJ~q;qQPmh}c7J_^i3ehJq{P@iom``4vB;1D65
z$IQ(7#gg$Vz`;X0eZ6P(CVCI;zTd$@I-C|uw|wd{&VYHy<#2uKxYF4R$h`HyAwoKF
zzsttHxc^QA4j$6Eurui2m+P(w94w?0>5}P`IuH~I9P$geKHYq(Jc^@r4}n93bclgh
zdW4lyUIPaY>4>k3c-k0r?%tQNkk0z4<Ad8;io5q^av5Bo+m13bM?!N-!Cpj2hu1nw
zzT(_RCE(y89W1YN=P2&Zf7chJb7fuZDMb-OIhcoB3fJfDeKYqZtkOJih>*?+=98q8
z!Wr*?gNJm~Lf!one_zW14i?f$EGitHWjy~IIOGzzJ`MY}KPAX7%mRl9>9pG0(I$?o
z3jqfY>GYYl-;HW5SpW_e(h<v0F_h8eEd&m^7_N`-^>+F6aG5^f5Fs5LBcG9R)E6n>
z;2|9Y71pcw{WW&43oN9g$;5W)8D@PCn1@^h*C$Gc#Oe7hX&pF3Nauw>oz~;Hhw8w=
zLpp*v4)lH1w~hk`3+bqTI9PY~M*%Bv$c1oy_9o&IZ-yVb3>+e)Gpb@X{;lTEXW-x=
zor4Va)*)MaZUYAk=`_SUKI}hO{02DW=Wu-nb-0Qp!uj=qLxgmSl9!liHCX6@gNJma
zJ(;}K{++D_4i?gpOuzWSIzvqwIOJz=eZ(T_KDC+&90Cpz()nZO_0eVU8WA{nNGD(7
z@ReiPadW`ILOOFy-aR~2`;34?E`aOP6cDAx%1!#O52WL2AT4S*8^Z(U!9zL*+If95
zt#r=7!9qIcuNZl3-QS7;4mlsLPi=~8V}ymRGH{5Hj?b+>&O>;a7U19^9r91>FFmz7
z6~MtlI@5eNY+gi0pIDKvy(b~)kV(!%*9ZB#xS0Jp{o{K{KY>#K>Cim+eeg2x;}qby
zK{~=?1IetG-vxmq59#29saBpa6X<}0fppFppKH3;O|K7}#$340<Jb3gj$;e&0w)&I
zSy-57^Sm<L4;*7ihwEF)PJQpX7jUqUPGQwm4$B6Y3E<4+!1Z~Y*UtXrs%1TJ${-z6
zYx&G739&c8@qu)#ZQJ!utvGunW@*gkaoeurP&&xp*VXadk`bus76uLm(pf)uM=IW!
z{8?J?ph9NkRWnjHy3WXXVk-6@6Z)~j2OI*V6R3}$&TTz53LG4yBO#Q@&hhJ6E^siA
zPRHNN7Hyq3e*uS-1=nZjN5x$C_uHJnAwW8=GS#n|e9{wvgM)Oozo+3hwM{*NgMoCS
zaPcDQKQAi*hm;A|r|-w0vkvn@4sZyN&c%tOf6Np(EO2m;4$s%@<l;4obHKqsI-+NO
zna*0%N&$yNgzHmu;(&lu^+|o;5Fni#j+h?*iTT^W!9hCa?<qaQl_vs$gMoBjnQ5@^
zJARN198v~cpHn)#BXkBY9e_iCboi2377zSlzXu!~q+=$Vy^*e^JqsKRq(j4A6du^$
z#R42sI$WQXT$=&|xz7E-AwW8^e{UpM$&F!vgM)O2sLQ+FjSF=F2LtKsC>R{m3g@~7
z98wxwA37W5DW!9#-vfsL=~PT}bV}m{|LX(k#D4Z)mQE0h2lHSco$=4CiWd&N=>ZNY
z6|T?QyK~s(wN3`$5Fnj6)#t4nh61mEgM)PVSOWsIX)UvXgMoDH7PXD!Dfid|hx8P#
zk97WMkHMZ^P2dn9oo}_(TZ`=!|D8XOj?9%#K{HE39xx9E(wQur<}UAgNdp|x6SzKK
z%|BG{k+6CW90H`n6ubA@^!rc$J^w&D8}^-hBWG71fq5{H&fdr~N&YO@AmET5!}ZZ+
z`4Nf>NK*g~0n)jfh9?9|y$b;j4$={dj9pLGIP?`b7)YmR(Yo9*SU(szq!hS5nX&;a
zS1Fx$=OI8k&(#ShL_@T9uXh}zqapwFOOWNIWUv<o(wPtLJhl1$=O%DS$#8wP4NQAz
ziZn8TLx6O?GU;P<sFZhKH*k>7=-V3$)i!#?U>*#l<Ax)8NWC(f1`g>FT%XIcw7&1g
zb1ndf0O?#2e8W*DPbUc+9Hc{`R%B^p6R-z37)ZxTEkpD7<sd5Hkdol~{5zpMUz5?W
z`@BJbbY4^qT5_^)?q2UWNXKWW>B0{IX$`O!2Ga4Q^v_;>eDxV{NQrQL(kwJF=dDEZ
zfJ1<EBBC;59yqK=0tW}_JX<-p|I8ha65wDUos2G`lg7_4|2-cj!1dXDyUJzXY+DEB
zAwW8fUY@El>{F+KgM)Os6Lc8Xj4O@<2LtIOv$NisbrI<U4k;e4kMPXjvsLF#O9O`h
z=^QbXr!%)*-aYO(NQdHc`TVz^j*DO(45ahX=(UiOvhQBtkmBI_cxIjb9?#?;2OI*V
zgA;hOZ83dm_kA}G(mC7Q{!#u`>lBy=1L+Ko8Xq1V`*spIq*%B<zFgKcS*pGQz#%|7
zy|f}-JrAOGKaaveI_e)g#C3ew3c)-WNawHw<H9Mg8BySnV&M8{X}vpWTeG1B90H_6
z9{PPrzsmK$*B?j+cj?AQEw#H|U>*#l6Z*@VT~jWr6gZ@4xISW1A-9CqxOcC20;H3>
za@%1wVEDh!4<Q}KiR;d0+>8gnUKmJ6rDU(bk#qN}fkS!-*N2xb(4Z@9qY5|#Nay5~
zmzMc~q!HlYAe|_|RE*FHMLlpZkPgd3aeCgH^#;HpJ%H=e&k<zG#ANUoI0Q)Nn{RN(
z#8HLa=O`Sc^EmmC^xg|YKfyd0NGIy^91~B%ZyDf_qTu?dnKa9<7EN3Q4gu0hr?3w>
z_I7IbeF_fJ$!w0z{y=<|4(7o?I;vj;pS~4S5e5z^60XnLS4NBPw7Pa*#|V%P@0urn
z{foQ1?{{#J4!;@cg7V;*-Pd^xq;pBP`z^hO)1BQu5paEu_Wn2{w^<+$90H`1`c>(!
zys(`iaBz^$dp)^A<I7dM&rujir@~p^sZdgz4$MOehwI~`T=Hf*!PN;k1W3p8V0F*Z
zja$~h!9h9?6-W7VX{mjHgMoD7$RB8*D%8{hhjbsVPk)ZZTMq4WR=^=ZI$953N*2!c
zoB<9F(s8HYPP#g<hy@M?(m5(}A@%i_{OiCWg~9dtU`)4Bv_ZoL90H`H()gra=-iv#
z`za36`DR|@@s-HA`#Asx(s6%kF(gNNe-Z3Ox(C;1>}qu--znbR&oc>-j^gumUQ1i2
z^I#qvq(k$i!ED5na`$su45VXk??tES7NQL1A%(*A!3rC&JPERE1r7nyk#^}ik5LUg
z2pk-wLrdgy*P42H6F3-1hxzq0h2zhi^?*aV3)g3I^mUAhsQg>t5Fi}~`<Y_aY>(aR
z6bI?NvHbGl+P_o1U>*#lvu`}g62H-s031>XTpwBeRQXD`C*i;$Ksu4k7O|JL=yu<y
z;2<3~OL=n|5&hl!1qRaL3y-){d?MT*>_rNO>r<4$6}UZP`w=(<NGG$I!CuiOW%s^=
zgLGo0Mco8+Q|ZAx7)VD%>g|(bkDluSheUwugIyC?GZ#$SeI6q~I{T*74BqK)`+<3I
zkj~xjMoF!id;WX<fpp?dJDWI~MR0(5NI`IYel|_&Jo=--2OI*V)7C-rAa?6@1#obX
zPJXk~ujAeWyZ2KJr1O$<;a02m`tI`vDG;vDn6K^nY3=ZCuonT+S>y8?=bogp1P%_;
ziDSOvF_6i+`+G<Xq?0#erC=dxy9DMT1;F*0m}6^L;{WXl90H`%ak*Rt_i#2JI5<e>
za`;pQvBu>Ia4?Y0qfhsEta!#_fJ3?i*T;E<1M~M{cNlO8kj|K_?Srna)ZP094$^U1
zzws$)Psr|b0tV7C3p@2Xs_dm2*o)*3*N0~2(y1mss%_v9Ae~CFWAe890`39_2kF$N
zyv&VXTHXCV4g={ttIAneqa4`%9FpV**XQGp(#WvKmM&l~0;FU8=ng|D^{fYQaF7nm
zv$jLyP2?ZI!9Y6a7PeCV-Cq3z9Fi|wAMrr;Qm1_`JHR18Izh{7<<0{3yT4<^K{_e#
zR=;RH8Q=o*U?81?*Ns{AzvCT%L-K*^bKzd-QMQs6GvE*)on!y|gX=sOBmTR8K{}I4
zI*hK;39Miq45TBcsYUqtcX{{qkmL>5CwJq9!fL}U5}1bo>74#LjURN0_yrssq*LLY
zr<?GUVfQ%`1L<s@!f~&qj<<k$NM3M#Doa<+9IaOW@AU`Ld40S&oldD{_j^4Yq|;QQ
z^`+q8&@HeR2GUs_R@zI5ChvY;N4gEy$Ji~uski*!e}Dc0(n%A1yO?Ditq%6WK|1AE
zcq-!*(`JB!fpqBln6>@e1dM@0@`UT-wk?-cR++Z@oIrqd&e>G!be!ef{ap$U(s6r~
zqARLK7XkLdKsv(4w`iKFMKpm!@__3TKj`49WqS9&>kHD6v2K`OqyP2a_k)lQ##h4v
zA7!!!?1h1Je7%~(?)(UR3LMfcxIQXE+58edzyCXbARXRICHFe!jsN@n2hzc%MaBLe
zKfU|89|qFFkTtv~q=#Pb_Hl>n!*kHXlY%>I_j6+cq*G;lTI~m$7$uko2kG3L`4#ST
z?$A7NFp!S>kz%%f!Z}&sklf(<P*8YRl`8w{0EYnS)Lvk>=`fQL01gh)Y4BxR7M+u0
z2Mz|(dGbA{(kIAFO#aYk#q$*kXGpGaePV;(JUJWSaS1pCNJn(_SJ*YN939}`Af5gz
zIpH&J*yn(Qfpj+8+wBPKdF;R;xxn>Fr?U;(b{=s74guD={qsffalJC&;2@o2her*s
zwJ2``2LtJ7q-{SKW|a5{9Fj9!pP6)`nOZ>Zu0w!yf`tF~69-wEVK5I4(rHqC*7{NB
zWHoRwkWSukyNlw8@)&SPH{tpu9bwIGa2LS<hXCo&NOg4_&^fm2;2@nVhth*(^<^c&
zJQzqvJ>vDNxOggK;E<f)`dly*8M({A>jfMFq;sudBqKYy@E>q+kj__0x~hi;qcOn2
zKstM5uCxg!#uxyH<OtX2jhQT~oO_ira0rl&VpO7bn76xV&zA~Pw};w!9Het-r|$lv
z4Yy+8U?816n+4}fR`geaLvn!Y(|F@)$z<!<-FXO*PT&rfg|ByN9L$4*bT+OyGK6p>
z@6LmPbi&vY4(B^z_kwvy_Hcc)d6$<4+PTjFhXCm`b#k8wtq&Cj4i3_>HPh>B|Ekgp
z91Ns0<g|MC>c`24z#-Ye^^q3n_@tmB=nNbJq$Br!ON=+Y*>0b+W78kfSO*T$k$GCt
z$ae4U5#V4Toe*1-uF;tByMerMdl_e9q)E2u`XK*3JN?{?EWLW)>B^t})oJv-8WM}r
zLH<1_$=wMGZj2t5K?#j&eO^`zdXUawm-o9#JYkBlPhv2US~!If(%D<hr)zPYs(_vQ
z#qu|kulP0_bbXL}HOsk1bDni%^YiOo%w*1Ij)ipYuT8l9!WRh$6$={|aM7geK|0ZI
zUwz*Y=M?=S<hW|{k0zKArGxx?sNyT7ORbDzRH)^-wRKKPDfd~!^<fwL@FC%f;4Ae4
zK4abS$><c64sxD@)cjM5Z-YY}4xToC>ZkV&kJ3RNuL&t1Wy#QP&(oCx$qd~}hp;Fe
z<UF`UD>nLtz!%evd-+(#UoOm8!S$&UvBcW*oV+)`6J}yVsYYJ_>HI5G&wEjGFgK(1
zhOy0E<#BsRCuErNQ~ABNhP`Ub^08f~xrI<V$k&aw-Zs0vcC&tK1&yg5##Qm_mT-L@
zm>$=Y8xK&7FZ=S|_buU6C8TpT)^g^0)rtkzm5qOv|Ky+eKsr?_eYFdrS)YmjW@9N*
zmAvIqI>>*A_sP5TF%Pdliv-5>o_67j(`+amWakp0N(s4!=DS^YBbVJwM>S_|pzDlu
ztZ92%nX?-D!N1>KiPAw{UmqHkZ~e}6(EyGQq|?lQn1aP-FN0$BqIRN;-*I`A4sx&F
zjKHTxiQSH&%fkt=DZfprQ98(f?^w1}@WBL;HF(0Etbi};7hyx`a3TI3@KL+Wd#OKs
z^LnEP@^mIvgUV1kya;FUH+ACAMYrE+Sk-WezZ65T=d*-p!Nq-(edL|xeGj)1y$G=9
zb7Q(rfqS|57I@x3dp;x2A4R{Vp79SAno=dg|AO=tru$I#K{~-ZNB^7~ogbOBd;O#Q
zuy#udq;p_p^C&}eUv_p%c1`92Rf{pK6LYh+?xa#^g3^VvTFEBg(4IfYy>j|So@sM_
z@d3|KeRy=&JJR`;?dh%G_AjyIvN*xyj_Xtkq_dwV_h;WyHg@M9%Q*L;JEF#rPH*~w
zyGkbxaL#0&*!&Y`kk5wFL0<2<hnQuL_Y67?-Pch*{=VSc%yqavK?|>?=^k(mRd(|@
z>Znrn7eG31zbmHZUT%J+IHs!?dw~9vJ*4weyo^3bRG>cmZxg?PYwCy)q~ofZD(~&n
zdnj@sftG2meqzP~T^}mM>yPwiEY+1wZLw3`IK7|rBW5I&4)S>I`SPT9a=ZMz*GjgP
z{pR*iEJ_FYJmxr2KwzrT%>>WS#wZ=+bs?_p?)vT^+X{c?jN=Q8V>uh7QyRf_n3imH
zxH2wNpzlr-Pv13kossiof5=&x6_)%!tuPW0cd%PJ1=11r2)CM_nBC)7LNwiu+PZ9v
z(m{6q`}_7M<z80(-U?>hy!fZ=Sd<R({5kmM{#<?V3@>oj&C&HiIxl7=51$Hss4QO0
z$*0TQNY#eYLGIPM&Tbj>;KF+iy7~F+jRRLwP&&xtb$V-@bsOjWTu>|Z>9f_7>Bf+b
zQ(st@Rm!3caM&Q7W9Mz#REHJ!0H@CkU1#K8?U}`+d$#WN0w)F1iRV^2e!yS8cs2Cc
zs^F!Q4aSg8?;*O9?{p^%fx`yrm`UDLvyc@M0ZyMOT%Ymigy%XeMoGX)fpn_lsTVHn
zXYl}zF{C3KE+5_Y;?C|oY>>{{#`aSu<&t?YPoD`~AJJn{R4i@Rlz@{0=^QdvQ}1Ck
zngEV5q(kP`Z|*;Je+oEkkWQbByotA-{U6};8N>Bq*p?Ek@h>U@P70(mcTz$<<DN=2
zaEu|Hv-gW?52b$Gorew5aTr+ddv^V>8JMTf2(FK~Ybkx?#`SgJq(C}^25eL3;aF?n
z7(+Un!{Hu-6nzE2VS{v5IO#o8f2>^tPM;xMA4al;VN$Mt4RBH*o%bAP4ownfH-Tde
z=}>eG)<2I@(F6_~r1SjlDL&PtX*J;VU4`rO{tP$gfI*lBa8e*0d#Rag`qv6OfnyBm
zM5!%Ajz#nBI&6^6*xItwo0rtWV4l7!aDCX+m|Ym7Iu?PG0_jNY51k(<I}!&RV@Su4
z{!-PMLWWG>ut7S1#xZGnCM#aR>AMWqXYQAggqMNJe&D1)I?fbV^|_9`;{=W|q{D*6
zU7D59{RSL1NXIGfaMXveoLb=Y8Nl@k`+S%n(Ya*-oD@i>q~6Es5#eYFaEu|H=B>V$
zJMOQ8fWrpq{5WtSTqaC$_rBAo57+0F+B-4V<5|97o)k#un!>&946NEK;21+X;lWj>
zy+mk6fx`yr-0Iwac<eWS0&x2D;QBn$kqywwIPx7hDUeQZi=@a0%lzHrZVc&&d^oPb
z#&G*~!<+Im(r@>-u%UF2?<>s~qsRZA8$1Xc@+EYAkj~8*v3(4m4!j2MPYX~w$oFwV
zm-(F|j$Yycjy<GvD=fDuspXf4WS@=U<m~ZhLXZw)kjl{?6h~NmWa0yKYb7aWbkX%e
z?iFafnUvc1C&l*LMYBI!pT8GCI#D+W@)J%gVJDj(mY=~frQ1U~lUhL(CaPgqfg=Rz
z$WeWvZSSkz3!E7pxIW+adw1H-;(rJ6GQL&TqPbCk(m{S+*CaKsJN;J9{k`7&%`6qK
z^FAmY<niLBxy)q6`{`~-vp2&B&bK6aNGGac6~E}`t|=T!pLbIuaA5r+Tp#>?tX4aQ
zWsN<W=5%$|?Y>G#=b>Xj<{_r}h;xTI1qI))H~FA+ke%mtwhcH;+aDk0(Y<v?m9kR{
zrGxCeaALse{b7vf7mB`*0v2J7)R2yNuF9vy=b>Jc4qKGTc!`sZ7tnP^eqMLDx-xLs
zhxy3JFSh*F9C{KFrGwl{iFl;E<ZqlEF3x#p{bqd^9;Ji)9`^ffl@V?OO)GEQq;pnA
zN(Bz3LxcD{{N_3Ke&T`ZCGrS;WG_`zs}@QJx!3d&9VxQv`ajv9c>!s@C7aZcj*UU8
zcek-M&aNHn8T2O7yYW1_<At2(Rh*3Z<$jj>x7l;kPV}u$!cjWN`&Y`Vaz30yR&*}6
zf`6M<(J4KY4zjb0Hz!qJ__k-m^g!u^m?Y5{rLzxlyxxR-ygqG^$Rc{qG_utuRs@IA
zIe>8HrW3ESmcQ7nW1<$0m^Ds@buJC)Z`0jNYiTq*veUb7-yB*8c|KPz8{9e~zqLlY
z;kQ$6zC40OxfcgwuR+=x)2)Kfx;5CLmc`n+$^w)Q@^#Fe(6EwzdgEomg>2T3N-aq~
zC>`W+Pt?xmQcw|)ZR9`MYaP3|OhD-%=W%$*!@Xe~lMJ3)(4L1U5Pd!_j&0CZJJwvG
zz{mccJs_ut@;W_?aGd@;99f{b!@D=*(RE(Jv)B}r&Jl#8VRJS9Y_z&0c#c{}=^$U9
zC&+2rsyFtH|33JdC%$&gx(%hnfS9M~<iNoy`mIY@lT@!Irp;q8DDOMS<Hh0C^s0V6
zI)WM><P~RhCl~EJ$k!i#TLvvx_A3)>-ct7st7Glac1B+B?9%LydwMHkn5|<v^)dO1
zXq}^oKE|pNBM(foTKxTT3;6f^wUS5KhYsQVzN1wfElrJadUWEclz>38F-ixy*T8AL
z(3_>$*ttC>gR@=1ooF58b?Ro86>0v?B3#nw5KiF($sUh#9(u%H+n@PGqNL4@7vIjB
z4xg;m3rFc7&!6vpm!B&PNZ~2?jY~#OQ=UV+7xI4LQDG{{$NA|JA7#@+2j<g0IF$3K
zBKC69GiKg+Hc|<G9|ik7zyA8gU)Re?U)Tqtf1XTtYC-!vkG#J>-0T+}4Es=E`@*TM
z_AN)UJ>+xvMD%r)r90aa@{QZlLJlJKLXghR^RvE-tF}|(idD@|FiB=JC_5wf+POKs
zeI@xp!)MlMXXm98V+D}T3#~iMUOTx@zMGbLmA=!ivxjuPIN(&f?%6$@PoC~{UFQ}R
zf^>w>Jt-><byJzv^gYP3_9tZq<?A!DPqT_T+kjV{MIT<=u8$mZxd75(@@%eU+N0J^
zcSI~c`@ypqdq^i#tEolmXn%Y?*UaABOs^#&NGGPrAXG-ToZ@lKaD?Y?=71TL&k4x;
z#legRoYO8VPr&=QGL#Oob74xy3TvyZSK&SX`K)A2up6XPcGAi*_@qh_aKs^<>ds+d
z`uNA9z**9UdtcxdtWI&SR?rbRWsr`rkJLV8<;HB_xIsD{6V&~VAxV?K5r=g45I3$a
z7knrN&XN{fA5jVsg$DXMe&CcrIv#YtM<<e1)q&#%>GWh+%t}rf-2#p{q~mO<Yt=&C
ztqPo_b8vmU{n~r#6cyNjQwHhS8y&9j7v+oqjvJ&?;d7ji`j8J7aKs@UPB%%G@lRwC
z;4Epv_1R30H;k{8JO!LGNav;*-7%^hIz`~PK{`?ekt*f6Ek(c)hjcED*`}F&Ufk`x
zqyg9GHyZ~>g7T4GFi#nzGd#a@-1gkuIB?t`o#SCL<0>orc3%(0Ast@Mrdv26J3lbb
z(pk7ZZN(!zo{#){EN!CJOoHpV%OD-|;P(bs{?3j8#|_dkU6oHOT5!(+jyR;_obBJ%
zef)YVaF))%^`Yw2r3_S_a0N~oq?5*VxmRq!u^TvUkWSnKY+j1_K6BuRLpq1F0zG+>
zF8>40k~&<UPE{Mr8p4VpaLOQ^LDqxUvb@fCy4=rfo02(n(+$!gZda)M(dx<sjyR<A
z3zM_tD77L9oFz55KJ8vBv3|$qjDS-H>3oXvaQ@!)`WJBAAf1Osck@nbQS1Om9MU<g
za?<@qn$BV1EaBk#Xz*yBoaB%U22L5IGkEUfiP8i`P2jjeI(ou)hkZR<t^-FL(wVvC
zav@b%Tn0Exr{Vexdf{!YmV-ipQwHfQa_Q*lngkjE#|_e{TAX^9=x_BKIO33wn>V}T
zd6R~9;4G=a^~wC!P+k6<)C8O|NGBzDuXeI&r}ZW)J!7nfinJS~(-)$g>;CMIDR9Ig
zoygKami2MmdVp@n)X94ut4k_yeco1%;IB&zeC4+YIQyu8z*q+9@C;8r@!MCPKpsCn
zw`HvN(GAjJoj>Ay(D%jr2iMR0Qp;HIi9<R*9ceUed+wy4?_J#Is9|5Zqzu<bpFJ*>
ziG|kgLsd{rva-XmGDwH5Q2pa%m8#Tg30dW^qkgIzq!WK6?|P3ff3?8%t6X(nzjDMO
zox83fyha%H{&2#h{69yiDwdSs`mAIwk`-9#mC{18;^<11S<4`uy@uingo|{^ca?`t
zvnt$%-5{NUo$`;L<|Y#JR)5pI!lhghhji3wzEm*sX6MDf@Ny<IRz6!&gzLk(k3-R#
zX<t~PtzpK3{E_@JNT<5wHX&r?dC;A3+ak@(0D>Dz2l>6;%`Sfp<NTD_*?fDw2Sz`m
z^iVp;&!hMbd;ER+iHi^+*lDA8JH4L~(h)ho`Pus9;zQy0v5e*;g>-ESaGeiFd%xh*
ziyHCnvNj%%G`SKB>D=^VvEw_ipReHKFU}+m+b}&y=lfjm#-lvzeCu&%{u%3+lZ=p#
z$(ODV3Hmj1`uO^tqM<p9HhH){U!=-B%HoYZfD;SpFcvEOIz!L(7dU#54$aien`)cq
zc(0-8BE5GhPZ=Sd=YMcEPin>1!k_9UJW5ttZIgrRW9aLC;|Yn~gZh4*&R$K);aEr~
zR^n^Y+g5L>O~+!!<|I}bJ(Lded!h+Bs|Nlo5f}efcjH+ju|;{54)QuBzna}jNPHwY
z-Y-zh#NlvxT^3y*<UBryQhL`Oo-w_DckyCw-02Q7N(VVlI=A9u*Vg_-jfh^1Oy9$^
zL`cWUo09ptn~(1ZCrg(LYnLh>((%1nwM~3<LJwQaTFcNJcNh!l+&rgL;K3t3&}=+y
zP4KmeCd;7fjO<foZ~CoVZu>F#UXKXrylBAhmCNMh1r8q4F>qq>=<b!(1`Za|`P6#{
zV}6=>95`fYxIUqKUls`{(&Pe%2<cG0GobFvlw;nUcJ{!v*#5#pIuG(6Ic}S3slI%_
zpP4_4wG)fdL4HqUZ73xo#DAYS((BBf@WbuVj1*iSlk+7DJ8wFF=5oaL&RFKQ6+k)~
ze><pR6E*5e8|!HgpRew<N9iE<`up<xmE#f5|3(_6GF&CNDvP6Zkk<w0h3F&gXLt+O
zA}(;sb#MAENy7CJ;JH>5+Iwwq)7o&zD3O{_2I&mFzY#F$Fmd+N*7?4TX7MC9ln%1b
z!lI7+xJ83va{U(Ww0}dXJW2=I$I|m1_l@+dtcaY4i=z))m)9lW`ozD_zG@(yJMZU}
zUi;$N7JntAbGYnkw8Ig`UXg<jGR@z1EBc^xkbMqTCp_L;WZJpM`yYnI`d%##rGxBq
zOJHvGd%geY8ATEoBh}Au7)U2R{#asA_m_eFKc_EosfbjN#Nj$Kv+<1!Q~w;jINP9H
z{^b~%fYL$sIosj=VEt*bzGuD4%i_D~Gg>GeWFHIP*Uz?Z{Zi@gb8xN-wq~S;blUn?
z2)}9bXWU;FRVKxs?`RZ5*9W=R!dLEn|AucYb`QQbe{kmuWh_buxfk9l_4SP%#|%7m
z!{IRRSPwl&=LsfM$Vzvs<UzQZgbKX{krC1{&v?1QcJm>df(qT^UoC?iZKvS+2<)dZ
zs@4{};gOO(rKUtFor2Oq_Oa?X`mjXqpj(D4!yP4BcUEIa$5}Hm=u(CAR=~Mx2f2Vx
zB5aTjEw%ZjOd5ymhCI*Fq%%&>`cA_2X$^=QYRt3dr|J$hVLey!fr!#U_Bn6IiG3@(
zuPHA=`+@X$6DuCl;h(sALHH4-0la_5LOS~f%~y5s6I;Ga0zdN^GZM+7==vb{+R<s*
z@#uQ&;-#W1ZY!Z8N<`@(uTzs}<-H8Fe*SL~!}&)NqdM$SI>>q4&od6V&%W!oYPG$#
zG*DS71nD?*D%>{dn(i1LO*h=DQzttk0@tVfeh0Hui7kWF_^AWTH@>SBpmdOZCW0NK
zUTiM!Z)xrgV5;(EbVKPN`}E*>D>_2%Cf|QMcZ5W091@3g-s$R#`^hA^?LFDU6hB!#
zwIqzL4{|SI+ORf@vU!48N<)q4<~QC-ln!#QiBI>>6fJH@vZzuV6Ek79^+D+%=ed0S
zsI$^1TkW%IPn!G^NdY*N4ssrbJycQwwS4y!_vaPcu~|RCKsuLPemqT(|LD*@QABPt
z9-ttdK-U@hyHf+vh|TD*&OdP(6Zkdy=Zvu^9pqk`E~mTpc7`*Db^SR@xPg<?gLFP;
zoW3+6mqe-iOLdsupzAXuq{CRF9Nycqm9k$od@gwNyjPnLx<1I`{z<TC^5>YoZDF#>
z_Ybmrqf$^h$Ubk2;wnksR#F46%Ge!$$2VXM>7-KjNrcLWUVC?9=X#)K%~v**4stL4
zR<FBSY7eb~t<Tkcc~EzhEQqcTa<5a5;{>)h%r3E7rlr%S-<2amI=pSN?vFmNuMg>b
zt+@Ey-whAxe2kY33ss8J|5chjqlj@>#-enPeJ+g;o5~MMxb<)*?)Z79#LNi5^=S^e
zIv^Ri(I2>dp}%GLTzLVcV|=Rd+=D}Zesks9*!8~tTw@REgq-Jh^6AQ_=}AlGNHkTL
z6oPcz*GF=U`s9MXo&O+P&TRH;<~UrR0UygNY`ImsY}McNjGi#66`*vG$LpSu=HjIK
zZMqA_uB`V?&YQTQbdcwBn!xw_XC)Su16_gw1$;i(i9<TqWQQ^jQFSJs`S-RY+vn8A
z5<j{=$i3cB(!A6RksV|#Dn0x7d>=<8N(Z@@>E9-bZS&+VPUD(;IU|*`K9J70x}P+x
zRb4rauSBb=*DL4bQ98)ICilGwiP$3%dPGujMqPqw8-vn8?q#C6*`#pvOvL?uR?fc-
znf4?;be)k7;nb({kevgeLHdi+Oa!;n1W0F4@9VwauMI7f))V&J{5!ZGhtfgzaeSYt
z!F#+p<IcX>B)#877;2Obaxd=AWp5dp2)b#%b=}y<LYEtP;rcAnyl6Yz)b1(Cb57zY
zXNX2PN(Z@@0(V(JS@5gWq=h}Ms~wLO^-wy<y&f5Ay59ZQc+ZXf$o%#W>mnmc2RYBb
zowy?2$~YC4%8bF2$4a95j=}ZGxO?{Cg&Kot7Sr|NRIHnM3Zz3ez5cGmV@bY*ovNf@
z44-I>(n0R!wZhFvj~k;<Hk|LO%sX=hi_$@M)-jE;OmA)UW+nFs2}*@uA!FhCoK)>y
znzDZ>Z}s)LC2Mfbej=n3ySL@~;4|*@U$ipZUJfE8JW2=Ihi818y3?xoHRCo{T=36w
zKOvM3vd@bz!IrKa++1xNM^BV>tNfnff$LM~9G|wV*W*>S+LKZt+tX2i(n0P;q;3?@
zimhi^NSyXt<`QgiL+K#*`rl9RJ)VsQbl_5NsRSSY^FbWaF}q!+T(G?<WB)^q?S`zJ
z^Aa~)pL?9Wq!;;<C+>Uttx2vHq?Dm_kbT%%1Ts&3;JQ9TwJJM=Y0L0I=^*>W7^%&C
z%;5<U7Yq>QSAFn69@1fE3bWN+J@_d&ezUA}HYa%fC|sZJ$gdKj?I$gMs24Z=7NP!8
ziPAy#dFeW{Pw%WszZ!ifn>{W24FXCB*{5kl;Pi}>Qj8cYQTp+d=w%$FW2rnxct9tf
zG_h|Z^z+o8LJXu+^Ile=;>7I_wa=-|4(!i$C2_%Z=K5H1R#sa*mCxkJr2o_NWdxKC
zva>s-$koZ<2tn%RcT+<juMcaXbda5?Gp_!Mi+5dis!+ea&TC6S4e1<HUiIHO&f9gL
zVIgv(&PKbD6Ryt(;}Gjy-xr4pIv@NV)^FhnN9iE@<nFyqq0`N`_Yv(@>Ivf4<9a9^
zWS_<8hsxmz-X8<fyLtyt^bIjWI_<As8{e8fq>N+#WgnZe8rH@E*GDn5VpgH%bw>PD
z#+1>^!01>=M>jm^%Yy>CD<zw+-1#5WyXc{GkexNyRMo>ja4J5N*t0*y?eB9oln%19
z?y)*0)B9>Ju9`o6g)iT{)5i|i$C&-@^487UZ;OxabZ1GFUQK~?Ha{1SWzPqR8628E
z_G@*?)ELs4_)~gY>CdQUfqkDRo{8Ot4W)zZY*@wAFumu5;jDI{VT7w&6PXRJ&!kYd
zc}Z@?BOd?cCeqmBej=npYT^^Ej|um{fB5(5cd-B?9@0@2ko&9|w%}{Q-G1LF@O>~A
z(%IMk^6f*5mbgZP)s)*Va)V@6xIT}aot|p2>m?p9Xyxk-S(757bdbkOaL{{A(toP!
zHdSVzmj0g{dz23Hx=4BcijWw1FnW=CQ$xjt&rb-_8GpjP^nFL8m=OJDOzC;i_6!SL
zpFjI$mWsY47qe_T%f-I^@~8mP`61fq&zv9`b9AQALyU9M+aA)P_af^t5hy~{Xd9PT
zxzw)-p>&YPYfLZXptEq%T1UKis<cOQ@zN2vKBoNIzi(d1zCXI1bmLjl1F<qlC;4bV
ziQd2s!(v-U_7t&}3vQ5(h#d)2Pq$C#e)2dwG1)3y9HoQoLs5IDgYxOL)F%Cm5L@}-
z*>z^PK7XY(bNt1BB%M5`<9%C2uCNl)`BHC`5j8Eu6XGvxD{{~Mst=^I9ocksEx1IM
zPMJHu)KE)Y9@3Gg;yK^_So}_O{)O?zPhlU|nb7q?cD}h`E5)37<L8~{J1J)@^$(Fy
zI>^_J(6Y?o9u1D|`O7jCU&LEB2$0Tp9$m)ufZA$fq2pZdZv>U$P&&xHoGGM#%%_Es
zy8Y@lUy4RQrbg)?_iC80QOddTZsx0Zj=|x$5|PHk=sF{vTi*&Tx(zNC_2(XAJ&PYu
z35Rt4T#d=54%D8eJ8xk2s66GX7D@-%C$QFzx;nn5EWkl9Jt*jy4<kwkxz{+RZ8N`g
zZ(GaQ6ZW~^n&;aN!S#6_@nhjdXwlfP+~=2-4IaI*kdE<Z6`oQ;qjgpf#T6fiA!<EH
z$NpyGD5Y+C_lroqGlHD2eHc+X$j*sr0&kr|g;bw(i$*N#`ziJ@!u9cJF+6t?b4$H3
z^Uy^h<rMl9NXI3sCcbSyy|PeGgkz1;xQQ{O6IN)yviRF=y5{9dxH{K4CpMH0vd??D
zJU+|FRds)w;PmVh4e!VdaD7I7US-O9JmR1%Onq@R(p!cI>G(B_oU5d5H}1*1tZQ*^
zO&yQYLGIOj#?|j{fY9rg55Gw$iof6%Lg^r{FG8V<%^oiS4r!5{fLT{>yBT`8K5^{^
z4{7+_ier7%bS8hVDHfn~kb6CSvcu9@abNv@{Mz%S<WE~}C>`Wpo6{C}L;HlWs5P}8
zJgd27;*gFFZRmlLTGJ4=8lL@)>f-!Mbm;mZ_o|s(`>I5HCS)#KMEvph^`T0X4sx%;
zaKBfD_w(*QXRgox+u`us2hwrOY18kc{TM%HcV{oR%w=DBNN2M*awRgf%79ii>sP`R
z3(@t1==vb{qPkZ1x7;+^Wc>2=3kxn8|0+>B$j-m^(wAiv-pE#(QxH^bvuGorbdd98
zZ(Ch+U12$%v>mqfK3m)c2kD6Q9PIh*D5JogUG!M9NO}YV>D<#Qo9QwUXXr}iyfU>%
zLXAWV*ZG}m7|!$Wvm#lKfu>CL2?7DqkxJvsQ_XJav*nRIwPoY!i9_iik5`Pa`Jt_=
zSyOL?6L@^8mOH6YI>_Ud5IxoZXIU$T<J?P3Y~YA%BMn@izU7Ck>-MI(67Ht1z0Ei5
z!%;fOz5aR7TD}=kjk(8(O<=#)(x`{hLGE?wL*c;Q(im#zVvj&x!T6hukj`N-l^%+1
ztLIjW^=@+$0~2ir;QHjHXWqW_#8Q!_<f!BPrUYLsN(b3zIsC(i*M@uv^4Z<5=jSwE
z8KZQNeMTR9hD66*yLWDjui3{X@(>$J2RV<;cD~%<ggtj{!u2D+k5J;s)Np+m9#wm@
z3+tFNkgpMCk7v;mAsu|OAH!@5KB#@>>-A^GH>B{84wgPkJmY!Q*OR3Vbu#;|(_&FN
z$UcXvhsr40?@B!T=_y*oX_hy$AFdCp-mlZG7jI3QjhPop#K+JTKsxJEFRgC~Gx8?&
z2h_eCBLvx_bdY<=2yuC}j<RAy{1-#i|JgqiN9iEXL+M3aWDrYx_kE|r>)3{Ay`_C{
zeO?yLDVgF+dvX~*&Axo8_O}eBgWOA(c$h=;eGVy#FU>I4^^cnmN(Z@@V(XV7_Vy!3
zQ|DB~9lLTz<sqGXO<_fwPXC>69u16pa7LK*z3BQN_xiOoU$J;12)AlD9LD+aZ!ig^
zgWSvOGRJ|i;e;LRvnTH<Oc)~xkd7%^;Rw~l6=e$}8G|?2qCYs44stII{y>Jbn3umo
z0>5yqTxXr4M(H5;Ix+vpXsymLrDCVqpxuhEu8|5|XQVTm7a}j;^tFLiay-C<Z`m;%
zrGwn-;$yw?*0{+g*1YO$^4!3r9!du}k5-1}wIjL@?mGX;QWm68S!RTEY=+zk-Jh=7
zSLolN^4vpkXxoFX4{|R|@XBYI9Jgy?CZAG&*9P;XpmdOXUGvVrjV-Lw`jsF1gNoO9
z!Wh!wN@pvuJ6#~GH}W&w@L7if8%hVc7msBAnVV6SJyD<9Rv2EqS0YoQ>x10u;j_4!
zS7Df-Mmb4L7R|YbL`Wz7DZ?@As*BWqC9`)I!d@2PAsxOpu38mx)%r{;{oRiJM|!a+
z9b_NTylc0Hv|hHc+E#C-CXWrwP{8#uGqbOqV$Wvx`Jr*7xpd8{0MeoV{++_=9I5nm
z_ae)%b^D4vN(Z@D%s)Rv6DI8sLrSWRdXb@D#ZfxQ<9?+4TH{8ghTX~zhv46QzI#g;
zxISt|KJFBAe!N8^*#3VEqr+t=9pqjqZ*0VGh6>Ag(+N(cCUt82pmdOXiIk=Ny=Zp(
zq7BOthxrVQzdWQ9&aN}OXaC~r{z&WGC$A0|t?&HZ`G5Z*{<`V^?|+f=Fj1uZ?{9hI
z8Df?$I-0;-uTTl;{8S!&BFw_~bW!pIOYy~81s_PK<Lc+t;a5W}pX;T}r}T59<WV}v
z<8^z0vc$rBk$L~V(#sYW+Ibk14ziEE@ulQc&y=p9TnU53K-zxNHeBb`6f60S908jT
z>f+y~Q&N5sARUr5A3y*53`fdyZ#K$wUj4+ObdY_%kc>^Ii#>NvoF*2DDl61eqjZpc
zV$SSrtR4+aq*c5!G=E#LrSTtJA39m;4NVyrvF7BU@()Z2BH@rusT8%-wBxT5y36;>
zU0;f^YC$?igVtdKmgAJ3@7NB>oIcV-jnYAO{$!re#S)ij?#%BoCG6<4(zXTHr@r`B
zOzjQl?;mwl3+4}!dSW4+L-{<EJ=-fg3seg0j@hQ3dMF*_UWIdP_ud7Cob~!H{ZB--
z{2v=i2YLP+vl|kop){Q8x?(u+V4L)+?=M`R-yTXS+TV`29%X3by77g>E(N87+)GD&
z|H~uc@97VcUpUpy6K~*AI>^1MDFe)(K6!n|mU0@;UCynGg>)`$pSbkff64(XdD^we
z_{|6MCb~Yzy>1us&kpJKYpxb^a2dL1js72dUmnlZ+P$rj(x8&5h$5npDGEtQMM)(I
z86s095}K%xD5Qi^h>DU(Nt%?DLWU+%B$A@hkmk4dclOo$`Q6XEpYLwh>74UC{<`*B
z_qwlpt#yxk@Rh=lhm1>kZJv_Hk<!>r(xSnZbIOvOSn}BCnXX;rSD#((*)VJJr48~j
z40*`7o`uR>seIjkx4H2FQ>!gUBVWH~mLD>%=2p+%<!5~TDgxuKrH;_n%3#UUs>gkp
z*G_0mX={M>i}WRZ+!^waajDI%<8E{76~gZ*(`W6o7-e;aJY-z5@!V3uvsIQhe^`?D
z^2-Oe&Q5munU{WO_2OY;;+{*rIXzi#YjF-k9x|>Inqi{e_ttmL-Z{V`>2t#?e}+6{
zT(K)`+Sc9gjI|mSADR>S#!!bPk6;1+?)C?j+K#%9N|*4vj^Sd-W8u>O_$}KjeV>l$
z*tsR$H$3khvpkdeaZ?>zq0;AE<Jq3x<D>h3eh|!%hs@7S0SD)-lRKVF&e8ljxzuB-
zAxoYJzTi7^+*4$IgLNm!X>c|3FytZQGEjbdf!{i`{7~;LUP)*6uP*CgmLD=M`5mX{
z>6$-3Ua)DS=1HE_EfFkvD&+#W%~C@*E^IK`DEiRlk_kf|GA`cWm1@aT4=pIYw<y=x
zWI?SELmo1&gGJ^|T<1kfhecIv?xWQqQQ6KeKhLvvNNm%Xx>MTf;+&exp3`C&@{n<D
zzyF}O!bPnWPyI?BzR>7(&4wWl8CT2<>%OykTaK@AOb##pm>wn0l4tR4Y5(9&ZD+Xq
zt%(_VBQ^F>8?*e7ah0b`P+Qx1alP`qw9@G*e%vVxdC0it>S!gHc=`MG&>B!C;kY5n
zi6xH$&-&}ZJ)G57#fJ{Ec6!iDh9%GOk@f|K;r%*IPFp4%KbE+wsg+%Rw&c1l*Vg8G
zJ+jVatuybz@C=4LWPWCy5W5qx#=hGEi8*uMW-GP1Gvp!rOCW}?thuL&;YUm3)WM=j
z0qP8SNPlz&)bz@)@z$%*ai1{z?AqO(Z<*zX<k=+5pIiOe{Q06)QRdp?<agvS<RRnQ
zey6)fk;coyq`M<tHXA>5@n^_G`cqi+FkY%(ZnE2fkSfnQ32q&RJfuI?2U{)-FY<|0
z6YtTWIm<1JhanH?PvUMn?}QpDx8{eFW!&1&v=qK!m*<7y(rVY{Z#W^iVfQIZ{l@XZ
z40*`7w%-+$yZ>mT^MX&(8s7H=_)Qq{ka6+Idd|Ezu`y>`VnOD<f;k?1EP0Y2^;K>g
z9w4?ZsV+LWt@d2mYj*hw+?MSeuIV@FljW1b_2%6tM=<0e^K-R4j7Pd(?fy@@qlYIt
z@9;5a$V295$KI78?+oV8_6iCgaLvusNQfoRo=2NMiq<JrhO5TzQGVNzQu&Hqe&+c)
z4|p8cQ}W_IwTP?Qhjzs<<RSC3D{kQ6w%HEL)1`bnQXlv8wPDCZ=I8v%y*ZUF?_GoZ
z2J0H?HYkX*<cZr8ZDAv9I_dDq_G`O@C$>C#$t*u)TwArmUT+wC_V~h!iSNzU^sG!_
z$V0|uESz>PaLKllR@*;4vgZn0=fsld+Lnz{6U?9P+-hLaFXGCG`7$hd;>*8G6B_Yx
zedwU^)eiob1~$E5m!G}~Va1YHdL&;vnc_RP;qsOYhCF0`7QQx^;Imj<d&w=n=(5ER
zl-*hKJaoJ0DX02gd5-kk7P0>27K#jc$bMh1G`9b)5s`2Dm+tN7xz22MXA86Zka3A9
z-<#6Cr<$dOLfOK|FqN-4EO{bdha9fVQ<-^D(cgE|VEGguhCF0k*#o9&RV=PwB2hHn
z^nsD@bsdI0WL$2=mRDM>-%VcTeA7pEcVR6TOCAgLs`Q&9zlKfk<1=V>tCLV(GrK(d
z@R%33r={q3^dDGu(miyMKSLfeKLLkJf@c}NjQ-#^oy+0sdT~RBJY;?bRfi=#8f1Go
zWKrpgfpPpcJS=$>b>?e7a5{J7x_pPK!tm>R3ZFB}4;j~m#HIFiJta)$U49<nm#!Qi
z!H|cHYx0I&gG=Q-kEvXc7u_PPWNX5br`u`2LH75(ys{FWf7!;j>=hqF9x^V=$6M2a
zSBsq&m%S_}-=X-W@)@)Ika0=R`KT{^X?2O?$BA0s{=WZU3`-tY<0+yU-WFAA167m^
zJ!RF*S@Lw7Sr%Bs<GS*WV{OicVSA#4Sn?e5s*vBkv|@m*U-`Cc?+!h#Y+{!mqad%(
z7rfu{^}a4W>5+MIVGK(i=S7B9yAGBHkDO-_`ab<xvpGv1fj9ZZo0Yspi^k>5E_0c(
zS%@W%0l)a};-U#5`*P#*rpeqsT=|q;epW<C^IDw^Q4(BnukhI$ja@M;c^vxZ_G~;D
z<m$=0De9Tit^#wGJlnsFd*bi5>Gt#O9fD1*dxi<I<S`9wm>*It7BIxJG1@13^0dlE
zcKNybLA+-ae`>jl$@$i=!>$U)u;l4Hnd7ly_NlX@A2#Zp<L7>9&XT8(l+>$^>VRkX
zKfFRLdG-dmNL0=KlHm0ze9gXH9?q3dnB|9uc;j4rvi{7CQCiA6BUdF!C#HWWW5`4P
zpX=DVyKb3wyN3FG*=*MIS^WKLhCJkY=w!2|k!Nho8tKm`_U_=`Zjr%~r|<KAb5*#i
zl8a--&&QtgY<6eKlO<j`h0jR$+Y7xt8Jh9|(-c|q$V7h{==(x`Zf1f9?}+8`Ij<X-
z^%uGC6xKU7a}7&$lP)+oD*HpSSq?)U^8XGfkL1gWnWCkS@sq%ihwQJi2Y#t`7V`_l
z?6y2A&@Q@X!;<G>s=~{HHFt(x8LKrh>!weFI7^-#GdeAMRP6~?4mdqX%qH0QQ9ZLf
zlW|Q@F`VvrsJqXU!{Y8bk4GFyV96sCQ0D(t_vXXKqOkQFlRZjo81j()e$=H@)}l4O
zvgo*Wz#5BDGBON#$he;GyQ}`D=5pNyEB9A5bJtvGddw_8q(2TFDOVEoDkj?-ac#Pk
z*;_w@ArI+~%-xNBin5%J_)n_f*UM|4?9P(s>rBTRjk8CadGr;{NZZ!;q#{EeGOigq
zr<<P44qCVM{qfm4$81wN>zL(-jLXLOrDbjLr3T+8a$Z3Rw{PdL<hiB4{-j*UOoNB^
zB_6dk&#Zk|@|?E*pqC}WXP@E5pD8hpUqPKEkJpRpdR0+{I^i<zjA=y?>pLH@%TN5|
zDw!6MW!BBsPczotGtSLn$zyN-kZ<;F|CAS7qxw&r@>aozB~RZolDSW^%f$*aUYuH&
zBl<y|C6Be;&?9osOcN?CK3YFqJyN~1mRWwt{gh85FzSl4ZaH{_82Ur<_{^MPl|C|K
zl+van_pjAnbz~YBIWI&`_6}IB-1jtixET6F@?5=9sMc{&;}LiY8Rm!N@!2xfdc5@B
zrbNa3n9M_)>?0WRkpH*Kdt8O8{@NLu;BjZkGcWY{2dO@OE5KvIlBe3kv4_*$-OIqE
z$dYF-zr@S|8rrGg;bX~jMbx=^%7yJ$!SlL?*?1=Nye-!9jl!hhx8Nyb$rIovcK3b7
zr%~X^V9Dc=v$S)|t9#MliD1doT{A^9Xv~8n;BjZk6KbpZG1fXV5j-X=c_v#Mo$R*h
zNIG~FS@JA<Fi<joaqS)O@Ui4M{Vr`=ZuucY@VtJ=Zv2#NIl6V2<Xn63l(FPF`eC)o
zZDp<w@MN&$xg-C6eNL0-H1I^Q<hdRi{7ypS%6#y+v*fY5|6F72m3h6vW5SYW^NwkE
z?hM%+2OdS1JP)*8_i0}jTn!#RmOOQ>b(3S>nMi`?^#gX}XYAM_{d4K{J;77Pl4sHC
z?0w1Kenbd787z5xqp!8JoG{G=PXtSzp(A!JZK^LC10HvlJf=!k+Cz)w7J<ivB~Rac
zW0#zTyZ3=dktNTC334Z=OBT!p4<AdO6%&(<-Kr}Nf#-EKyYW-LC|LQ_j!8w}DPze~
zYj-!XUDV4MJQ*x`OhOKJED&hu2A&9(JgG@hY0i^cZh^<0CC?baikMzmjd|cPVaekd
z;&OMg`LiVOD6-^<Kc>In1h+6Rc=%ZIY~#&%WHIt^0C-;CXE%OqKli(HRMRC2JY_6-
zWYVmHS3e!L7Cad&d3@eSNuM45elK_;Sn_!E^1H=bTlWDx?kstF`1s7(v0?F4@R+dV
zsoWB=K-oR&`?*e$CC|mA&%y)it-tR(d@On7vXuO_mhW7LxL#MW8$V0M?taO*@%;OE
zE@R1K-dWu1egC1(@F#;M&teIk`#dX;{J;H+CC{niwjM&O#lFBFca}VUuhO}ns!MM=
zvf|betuH-&Ojz=yg#`IYs43*M96p}=;Du~&MTR`&^B?1-Q+5^<+j(phP97L&_eSb<
zC9{4f|4&WjYx9G12I#jO?X&KpwxHJ2Jcc}^KZhrI>02)rN&66>b3i8Sz(aqAJmh`%
z<e<;%#!c+M0C_fK$V2**rF1O&(3|1`U*bcoOqUim@-XBXPrSd#-)`L)n0$Cp?O~~v
z&sHy-ZOE{{$oo@SS9Lq?11%R0n)R<MzVo<5h9M6bm+X+XE5<=`J3GtckK`*KOKxHq
z*FYjJ2cDfJ?K@i=g-<n>e$MBgCdAMm34$l(vQk0n{fg0T6O2SBUR`Ql$&iN}hx^71
zi;c|bb;0bdQJ;pY@fT7U@{rG?{MTeplNfTV(akfnw%#VxppYTY03t4f=_W?qN>+Wr
zJblfOXBff5qhQ;?tvsdri~ktgX;Ln={tVZ7@_mZ1eavG1w)&at>(>w2BD{UP6GNV!
zgg+rqNAFIpRI<HxIe&A`xCsMv81f7uc;=4(yj%ECi{fZu?zQ}JuTMuX<RRxfzsrNQ
zW<#Wx-CW*c%;SG{k2yo0!Gu42tF?Og*$*1sH^aZ@r6`w&2@HA2`4uwbW^S7Oklt=D
zmaEDszwonR$U~0jzNY^EjwT^fm1ijx*B{|N!}Od$`m=abf3wXajx{K0Y!PyPe@~d{
zI3)XhtENY>)Ui^laYfrtOw}2(pXt0H<LVc)Uu<-rm<hY8xw59otX~(ya9)scDU`gO
z-z$5LB6!SM@<jAlv*L=|#Z>SxUB^g&`fonk@#y`%#o(!AxUP~s4WIf=_n#t|^y;bX
z!_&13gJW3o%*k<e?4vd59(c@I@;JE_sA-sr_5_a*OP+$7`mpWgoxN>W-OskO<_fR8
z$Lzd8=0`X4Oo`~~!i@Lct#_->Z+jTSk|!^6T<sCQ)V}W<&gc$Nu;^>fkcV7<RvImw
zz9RZy%#xU;y)t)QYZYh6L(Yr6o@4f`9pV=Pp4WGo<%i@EwHmIZIeVoDc=A~CEU&3}
z9N+h@_}di%OV3H?ghepqA^WRPqFDD}?&xDW4>E1nuF_XDVaP+~IkDHVU~9kRA<xa)
z4I76wyc1%`L;AC8jq}}|CTXL=Q+bD3o=F}v`NiFC@7&D|o*0%q?t}f?pU>)R1|D;k
zJlf5-BCU%&+`WbjDw)}PN|6vt9?O<ny=p~1yoW!Px7p>#D=b3tfkF04@Wim>X?@do
z%vrU~w%{>m$#X(Sch|twoJZghV##A2dGA`RO5Ow0@Y*Mp($gy|Z!yacIiAxW)(q;D
zsUHrW1cp51IPBFw<${W6Pb2Wyu;eM;c)p}nO|Xw;=vB#$q2;s0S@I;m9Wh9_{G6k!
zf0grzkKF_xRWQpB8CT|Zt6>vWR3Z>p0z)1$&m}#1)_N{dtdJ1g?W+=0+tZ0559!bR
z3l2|Y4rldp5j6|kS{|Ax!;&X&OWqn|o}_}Kd#*lJxMDWCshnAU$hb6`hS*=ovgOO{
zoZ5TJiHL0(40*`7#7$cqH6+SXE;u>t=P8xZb!W-*On(03nX)xIFn$zS@??Ip60143
zExzAT!R-+jANGD-#w<T%T%Y9~m0j<8XKh*IJdA(A3;qn2JhG8z?iMW_o)zRNYkegw
zd6GLzo_?PnP5SzwgGW0~Bl@O#g_R;p9`nl)!@cKBx02ZU_WX#m{)1navdfR?*t)M{
zmOr)XjP|NO6J{8Y!IGz!x%=+bH9e#--`yGVkmLD4u7l={nIXyg_jp<l-nf^k&X9-f
zcT*>!>8piiwJE4tzgpfFAJ}=5U4A5WuNV|g_2gX~lNTuQ^7)_~hCF0kisMI&_A9n9
zsjur}8)hwR<Ij+XjEmo&_hWzQyRMb7*W`zla(~rf$rDq+Q=IRvGIEO1-p|_H!*_A9
z<WZA0l-}WO7F^qEzf8<D`dMBHyF9;iXx&yfqSSFs+bpT+3JHb&EO{<$%MH$unRQ`c
z{ee;CJ=SUKu;dY0ut&i2?DM|jYp+BvGCZ-GizQE5R(A9hfhuW-H=~bDuyneYSIjIw
z<a57kiG3C?uNt~))PZZG=h|oHB{1Y6$4^Uv{TiPAE)LQ6JA2r_3%PB>kcYg#h*Ih|
zd0arptVun(jUB#z&sRl;JfuHu8OzNyon?&T8?%PI=zHb)>mp|PA$c@M`I{{^f8!~u
zF<MP>x{p}~OP=1_`A%)rP;fsJC}TcFZt(_pmOMJ2zxFE)$m?rcGUWD>l73=}EP0ww
zIBlC3yl>~LzA~wK_XVfEzQHa(#;;HMuU#Nu3!V&?JeyjN=uUh!;OSBI0);g%d-ir`
z$+PTQ#bxWbT}ii-M?}6-oROl)kcV7XGs6`=Z}F&<lV2>dN=7#^tMfXu{E$3a_Y+6o
z8lm`Q^vb-2pLD#F@>uc&K2+}8abF`Ldr5(eM`t~6FiW2Kqt-mgIN1Hl_OwCiJ!ZYw
zVZxAyoEIgwa=PnzOr`CmmK-Q-SQN^~k|(uRA?)nr+e2#OrTdJL4LVR($S%)oA1;`E
z$@XK|NByKH-Hjgc$FSrnJRA6U<ZABu9~>1M)OrpMv|-3Yu4Cc3-3*sl8LCH}@+cYB
z`236_LmqPc47QzIx_*vj=9&2G)$4hd#CKj}m!Igzqe}Z%NI5^%RZN_z*&Lt8l4t5-
zkD;+*&y-(VXzba3tNMB{LmqP9S!?$woUe9e?|{p_UwnA!SL4Kxhs@8aVf^2`d0)=c
zKGy4yd1t*MOP<_kyRN?L`TA9c*}^#u?~;Q%uQJOs+3(kl$0WSjl%%k9Uc%fln^G<p
zGUOriGwi9<;PW2)mOS67<vsPqjd3XqdC2_ucx3U#bR=&)Ykndtc*vI1?kstPRK`!-
z`*Elcuiu8{XAT}2r_Pe6W&4mjeZ2MM;x9DsPEM-U;$q3OH@4b8e9xR9tD(*Jn%eaJ
z3k%rw*YOYGuP0VMI(a-@q<l+w4Q~ufo^JK-k)n?s9^LIUsrKPry4#5%57}Q=UDhru
zt~?#P@ynOwP`(dy6j}19YOEVLzn53Nxb@l>t3vK-bzWhXAJQLL|1rjI4X?dFxnqLJ
z{^W3tJeE8@m8lBT6E$ByD_uSyX2N^NV1_*8{CcL_f8{DY%{H7j%o*~K``2yz5xT`$
z*_!TNXS|g9ss;)%<RRzjvsHq3=WeqJZdj{ou_#YSxig<xo=JaX&o3FP(a+c`YrD<b
z+I~g1a#-@X$J7bU`ZDV1wqCn@Z`=>Q?!%Ht)8Jk=xhvULHls!+MSYdDQfJ6R_LoDZ
z-Xv+y#xrsmymsNn*T?cO<RSC3?*1o*p4UI`JXA1jztJnZD}|St<(YiXC~0C)+qrqp
zsSDd2whmG{*qFeOhx8}TL(Zn<bkh5S5+%X4o{B0q40*`;H6dPoQ0c1$JG})K?q6G2
z^ht&x59!Yk&4Sipr+pM!E0yZoQw26QU1F9W(jU2KuOhoIGwOLomvSeVnp9@6<eC3i
zY^B%E6*H>lc9VE@IbOhrCC{3IRQ{Q~Ey4kX&8Agj&&TL6<RSBOWmwt4<%=zhbFQeK
zdU`mzkc%M?nV$xCuMzD>mG57Blr3^)@zAe@dF=9>b0#i5Ubl*?#>(+YSemzQ1VbKf
z;=6)nPc<%I-x8>j&ENj^y}+O;{tS7@{AkTpSL!hI(h>Jf<xy~vnybT*hs@7AJJmSB
zSY5v2=tt#M2Ya05VaP-J^K9F$j_arE6?z@3(XP1oX;$Gyc6ojfXCBC79j-V%Hu#MV
z|JTP640*_PjK^w;$)NgsV|;FZJky}keWwjW9x^|Ac7e9rT(2(c_DNB!JmF=i3_~6=
zKTd%Hulq^OdMS|cA+&7UqO(mGnB|9zYofg5DX;lsZ?@k2kUc2)T51kM9`bvw*W1<~
z-<4Xl6g*7*A$f9UI9yoJ=j?>b4+n~;O<cHKh+%&E5c5Lw!IpJTExGfaXvE%Lbn#p=
zQyy}D@%L(3b-uiO3V3)J`a|+WYNyFxY+9*pX3nqI$IEGHC&N6G<45pCP51S~-!#;f
z9J#gMW{+wfLmqPcBxP<=<X`(FP)IK$zHPAl8Gn{Mv8UAY2i_elpfYy;7zci?CLNYM
z=Jp!3yBB8`9F-sN_|;U!P%f4{o4dt5Exz-`tdHK#Y@eYiX?f?F%?mO=sWqEsXfL+c
zta@_u%9t;U7x}Z~xh5j++qm;)$KogECW7fMLOLvY#Cz@IS3J>be`V@8m44o)$GBMX
zc#iA7V}_wx|23a2BbPpIl+QcIEI;HpeCah;D!nr{^m3}%y~wG1t%Dizka=!@eq2`0
zDY{zkm2vspwWVc-EO}l{=X>1x^i)vp{1HQ<{oix*u;eMTJ}ud~Xu|0m5=jb~Pt&g#
zo@JIF@|<ZeSik<%)@bQN57qA_D_z={z>tT$zfig^zJ6BhC;w+-r>%C_KXjr$LmqNH
zd?z4aC{^}m;EW^pw|$zmAcQFoxnBhNg-`f6v2cUsQ0-S%Zi&-P82Ur<JfD2yQ2uV7
z3HA5OZNB&j2Z}S~A=lN>Wh37lzp7|~b(N1Hk07yM_&aXSYs+@qDOjBHndfSxG1L5z
z``7hzm&B5VZw-@C*5tkEtFSbKp+DsB(yVcDw{VG`V1{)*g(1%%BChkh-Waai<2l1w
z`c*(uv4%twLmqM*#=aNhinw#ib3d2L(}$02Qkl*Rvfp0{IF9h1GTd&)C81eg)vH2c
z82Ur5KgqK%?yvaJ(8T?;y|r2HaSt1YJY;^pRCPR@>$=xzwB^=rO`-Op2@HA2ap-N9
zxM$kUS}yFT5e#|wi2l;P(P6*eE2{9xm+A*cPX#wK%`-XQzj}m~sYUr-s29kK-MH3X
zfGH2z?{^D|j;foEt=?r9)xBd*SY`^txJaIga^03p{dk28b)GL{R7{eB8S;>EIXc~`
z3>*4fOik?Qn~g6VJ}~7W{Rws0GGamW*+DqBI5G5x9ETP5qW6L-?;Xs_c7JYVQgTX>
zArJZeyj{5ElW7B#8iO<V8pgF4?G<9kLw;v|ci95z)wxZ+JEvW0{rq^jBGY+6&ePf1
zS{rXPJnj=Vw(j1IogT4F<0A93Y3mIE>ujGVS^F#Q*>;4j@62VkpOXDvqQ7-r(;<Vv
z(v_zlMW6LaVah}9%Mu?SjmlnJ=<{Xn^pbrG^!t}F^oKmR*zVmuTZwmmSoRyg6P0)L
z5+fM$kokEu>fq*uJl<^y^InfozdB09oFNbC&rH4b?YtW2i%JeyebkoATPVbmN96#2
zh^)&zzAeuW`)+LZ@u@t+tiMQq;(g35chp_8I%i)nHCdsvHijk7lG1acQ~h{WsQV7z
zr#9}?U2~Q^H(KBCxipx^dhubt2ea1qloDdeQ#k3QdXEQ>ZPkT7`*It`v{mM?%a3Dn
z)M`bANh8AUE>>Q<$$%?{B~MjYeJ|c+<Hj3XFEKC-S~}jGB~Om@5Y3bEH3j^p_e2$p
z6J3Q^^3)VLjD02Nv)l0U=;MyTFCJH(W|yC=NN)Kc@&4{5I~HE_-du7gh9yt8A=iBQ
zr54sFJ-&Nx+%&g=<}7)v4K&J>d#?<rsBLu6PwX8d#E^$vS8oM5J^I48pd)U7@dbI0
z8jYrGcKKPP=d-%UsKJ-V*;=}0txP?V!jh+M>($nP?R(lExXUlnvS?^<V#$-RJ8ATg
zrl*B=di?|Q*K8J)VacN?vT%D);k%uALl5zsYJ6$lbc$VmHgM-I7tV0qsk!5L-wBcR
z7gAXAr0z9oYmuLPO`|<?Qswjq(M~LRg2M}Ms;t>NE28x3fT@c#M$0hdA@?sWn>+KA
zPb?j-+<3WG^wb$6E|xq}Z;tRDm6eybc9!b<v|1*+@+7-FFTCenxHZ~P{n7xBKA#n|
zs$*F49GATL#$=?e=mLRmlVoR!XPdL+scu`_JyDv+VD1pjfyPy@xrJEr7%MM7|D}4{
z8-=^$EmfTA4^?Kd%g@<Ou{I{>k1LPnH{bNmGO8wqB~Q}i<NS5;Z37LWx9+^-?)=)E
zC6BA`rRSQxlfxyhSlgMZ8;uiU$s;l>{7F@7kFO7kx@+)1)2gUE!7e{;N-n)8^)|Si
zF1q5xlBdl9F)VrJs};OVTrfab%2(yY&>L_4%vti>*m%qGRdB*5<1#NtHx0cWLM(Yk
zj+v^TGx^5x3rk*Z^NX!(sLW)SpQE|^4&Ur<eyVS1b9JZa!;%=5JjZScOZyI%T=pSl
zQsYz6v{-YNJeOXmuB_SNH}mxKL|<*~!C^uydB)1F+T2I*<m1O#`m;Yhk@2p~V3(h1
z=bqbYF4qd`I6u{Q{g;yWF)VrP3v!;EADO$)#Xae5(M&IHbCx^<H{J2w<mepdu66#6
zO~;bULM(X(NlgynQWw$bH`QoeYwpRq%H!<vvypE}YQ@|kJUfS!*{7~iXpCXW6L_kq
z*{D+KioWNuxMJU+>*g$Z1nv)*rL$s868|mdYg)kxcZ68-%yO8ts`SXN>oR?pzuFZm
z^QbbNU49lm30%7%R56Cnb*!!YMefKLmOP8P?T=Oqzuyw==W%?m#sDL8mOLVBTP<%{
z?RCHZv}nvokxzy~EP48iOr0XXUt49to0DG?9!QO=JjO0RH--hwmsny@8sBf+0}m@}
z)fkpMN)DgCPH|m!sVP-Jugx!awK+?kbtm+q<I`Mw%*|gHuDUnHQHU+i@;c22nYVVU
z^*LM`x_<SG$~1QQxxZDmZMY@R1jpkocXkWdZHZyXL*5sRy^^)=`asz`b928+#Wi*g
zabn0r-gj$Dyz9vJiA$8x5tW_MIJl<_OP=B_u8|UE-S@mUer0~)mRnHMQFi%xE8?77
zwd2L)k|7#HjLJ2;rLg4LpS5H5kjYnzjBF%7EqrqRs1r*b?RcTk>C!9iFA=`qKF~BV
zUWO$P|3QuA&J%CW^flb!9Bg?kvgruB{8$UO8r2OteXi!kO5vcjJk2Q#dC2ETgFQcX
zmq^>W8qcHL8S;?#7a~e!ArnSC_|!1U@#WLy11t;~@{r?julW3`i)Nl@)9z&?m_;pI
z%fpgKH-G<{r<<SO&$B!txjH=UL}4nkJd<&aoV&$%@JcmpJZDQ_$V28iBUx%@!rG2A
zsT<aHD;y-_?8K0V%#W;m>N5H8m+Bt}eTWMV7*Q+3lBfQ<l<dAkDIvG(Mt8WmWEwT4
zFv}0=Pg-6`anQsa8P5x9GT!FSElFX>L+1JL_TKKhw;xN67;fhx@I|%NpCJ$FPt^v2
zg@T4BXL~L78+@x~<SHGOJnqG<6GmI>h3#H>TUzs_cmo$h9`gC~orb>G`#Cg(-BPn1
z?7e*9Ev7tVTnQ}?W?r3_ICSKOejnQRaox>3%&xyC8_YXidgtKXV7K(!g`s<O{8{oG
zx^h>!&#RXOcy6r2lE>_0t>7c$6$M96-H@7eLaaX*OP=l9Hy#jik6Ad-=@4&FVflu<
zL+tXi-zm)dWa8HY$|vKGMV+u2;LnoBq5iV)ob0UWbC#(-;;#ARq{EU&rq_wyCuUxs
zmiF1VG%m@kii;(W(UB_`E6nu9T({^IANR&hJMSR7{CIW~e>mr}?aItOXZ8E02gUlc
z<SAcMHhOQfq~x%eiv!N@i__F$$+Kbi=+%k=Lzjv?H?)*C-4nvakf$&4{&Y*#^zL4p
zD=gA)9eIAXcCZ-_LmqOT_S21+`L+Ae8)4NcdtJup^({<hmS=Lmh!o+n_`2C-Z;z17
zzVmwQ-W0)*hx8{g_*DLyV4c`S?LD$2M!b4s!jOkNXZpx06cj(ZJlZedv1Ou8<RNi}
zJfuI%!_H*9d{`xo_e779nB|9j?<w=f_T*u|%PEaxs{Jh=jqEIB$V2+m^ts;}p-X&y
zXU<ofRMks(O)yKI6gkPaWfPwI51FQ#+^o~f)sQ96A@wJ9xAm3fweN>o70*4tjfWu*
zIevt7R-8|}dS-RIVD~Ah6N`Pz4lv6z$wN$&KV8K45hRl1@lSVzWdr0mC28p5_^b0y
z`uR_lWhuwWa~S45@(-D5-Z|L`QSFlZ%J0hKU)ApKim$7k-;;qVhRtC9z?}S@QOrNg
zH*)?!kNSGJpiquN(hlv?t+Ql1poKq>d8rHVk-u*WJAD5IKY*wQJGypJ-i2Km=*mD>
z2D&o9E(86jYCvH^=BH$!0wGf(E#UkF6rn63PoU(f)WV-iFrhs{{V(DON`vR0_?>TZ
zKlzu6zes_&=;(0YMgCm@_Di~Yob=c?IoXkU_}P6`hG-D`In;FVVjRKlpMvDym5}k$
z#es27SN@}VjO(#KTJbm8<L`LXi1x_8t00PhxrjUge|ZCcF(EmhN%=2!?{D8c({=M_
z1EK2|I{nYK*HynO1OLq#!1EHe`!1e0{x|3FSHzC<CGhXE-Z5SG|1SRiioW=7;=uDu
z;Lpa6=bONv<>OQz_pca#xR1iPg&uaC`2O3=$$j9TazB7|lf-{Ye`1^h(GS2MjRW%!
z_@ni^?7K4X?=pb*R6s?_c<8^Y^e2{K-T;49Q{W@<SMk&F;5{UXboPH&J)ZlK_;>ZU
z%ddY{25|pLBGw`3v5#`Xe^&He-r`&j#CZqu-#tU{69|7H1MxdK*oUBp{a=N69|t7Q
z-*|roB>g1kBU#=h|7T?Y;}`g6M~CMCz+crKd7gp%tN8zEJXm*u|1|&qF8*Si0<k{+
zUHtn`^8@ccNc^kf#JULltNiF{w<`m`G6Uqf5YOpJ{jY4Zi>oUGzdHjM*JziNq5o0D
z`4W7b_J<#}|51Os?0;<re)T$t^CR%rdi(3xes$bG>lyL|#QRUoH|T*s+ulF5KJH6^
z|I|2sm*03khW7CM4ha2!3L;)kC_n`ayZ@B<|J&lgdPs+Vc0RC=(6xhg9Pg`P_q)Hd
zN4s6vm4Ux91DL1qfs~>DZ%5<>h;!h7dtR8vk98OJSf@RqAdp<2IenK(uHS!`^A!1a
zi{yPfIgaS;iS%@dT^Z=gz@L}_If|RasgxdnulXms@NcQHe*RmdA1LH>-}R&Kb2-^_
zD*pl3yG&VR0OuGW3yQ8PT^Z=gKvxF-lnh{h1L8annNy><UjX9&WkTjuAMF8g{{k83
zcF1&mutPayI>h-uoT`A|l|g;H&qICeqvZb0G*0m1cWe$&3jDqd%JE$cWD?;IsVCnH
zpdG}Cc*s1WJ@R`|)I+>vyQEC|LnqVKgC2<b@DKh&Pa^!qK1;@la&lag?SU71AoM^w
zJ<912{X+IT-S6}K)#qQjIDS@7j@O^%`=`~%y!xm4{b%`$=QV#8|DVl^ee2I|2mHUg
zJ+%8*A=YiIyTD)VPZUK+@{{|?&$bJGAjxM!DJD{wPa*sx?K#P$|Kxs;`G@n2EJcXl
zg~jjR;dkt?&(e)UQja)M4}T{{`i*{u9qN&Gqzu1tP9w`n8SOxib~x3?^K#e&^*}@+
zd0wH57uC=|q+cipqCMn?Y=@Kos0ThE&RO7x9>~cr*fB-$k^a!>ab6(zO;SdErhdSV
z^aJlp=<*?liUg88MDY)ch#M6#Z&RV5P==7n-?t-*X+?|!T7zFyfbmYQ6Lj=s9_Z|T
zRL_(b{{ATc-`yVTKDmzktlxC`BIgIz(;sb*<e{ri^5Z^`&K`PlU4i~b5&P1Q*6XtG
z%0O2Jx-!s}fj>6`*r#yrp*s)2juYZ{1Hgm*6;aUbTj0fc6Nvo^<=}w~B-@4EuR^o~
zBzfudutPbyuR;$*+(7gT%5i@KJ!F&v(e9s(=w~4Idm!8P!AJhSJo!7{;3vP!g1!s8
zGVq_6fnR;U^1E{MyXWceY7gu1@5&?7cCa7dxe(sJajK8~M~pJWz70N3^^p%cd+_^H
zM0gHDH?FZCaC(kNo;Nu8iMYT|+GD>#{>XCFhkhP)LB>ty9r4p4_<%SE!Jg#Dxq{Tg
zKj`V=Ks!Lp8^n)(VOk&ggumbgj-xKdQi$^mojv|;i_9bV5GN3NrigY)KcJVSi1I1K
zdkGRvsB+{Re54<Ek3ctGF&|KGBXxmuF7zXDK_ML<@&dmwo`~xIA|ieipgv?0$#POA
z+r_vA5BisE7xfNMhFD)vFPyr-cLgLb`F#uOk%;~x&#xH&uqXY4o<zhCL_Io$9gwsm
z`B4sgvYbxO)DHE5boJ0bWI6O?f4~lU*g;Rq(En9P&PS%};9uqMe|x)K{qx^G0{)!%
zf7Q6cdJ5#^?XPN=Q#+i>nfl9#hiy6bXVk|z6EY{nI*xpTk5gPf+72f_IF(~x=VaGa
z{^w=@;{^EUw)Xqk|5M}o{h9o+7O~!t_+u>Wt;zc*_Duh~CgS<uTILeD?qR)V&hUpN
zTR)H&w)N@!1TS4VQ$6VyDRbiCWY4Lbj=zcJLZVI(%1|<%1K{}(VfI~&_<r@rg&rl7
z&k1oq2|Z*~7smyGu!kD{AWv~9Adswwc<}uiVa|nfh!asjo;x(D@{tsheAYyLJfAWn
z^rSePQsB7<x)XjwChIYk(`XFQUJz9dB+Zc@QqNQ-`<rP!Iy>??9N7=>7uZBCZ2Jj9
z<QHm;t6%Le_?aU7U}}%?!PIZqgCFAn@~=YhlI=0&M|~jEdKeFM_3%6!d>AK8^G=RG
z@NmM>gaMs@gxTLtJVbefJpZVJsQ0t+lk=C8A57;59S`<{1j+!<`|*6AtcUm{$pRV~
z^F)s-M}4M#V_eeNgP(_54{^RDpRdC`>>GAeMGL9`^<f9ZJi_1M!VkR9LcX9!-cS!X
z4}=6FA5b%$ucSTd!4DE)&j~S(@t&5G{jV-Ze*!ViNE}Hu3`8D*7}r3IBjgGAtNs7o
ze25E({sYQT4k0hl1EFW@H~I;P^CFPsg&ybZNXkHkLQA3o&XG`K{sN%~V*Ud$|A6Rs
za-KpD9w6os$}!&|W4(rqdVe;?Q4Ij^Q0pI1l5ha}8cGjbPt{vM>48LbE)B|#)I)Zn
zE|yS;_tq$vr7ke;fa;W<MED;-m5Wn|b(a!<7|?$}ye|X}p&0R<LQhJ@{WiuC))kav
zoB-h`kaUzzk9`Kbs0UuiK*Rw=96+24!ABx^Fdu;6BN6|X4)G%&K=dQ}8~k)QgDMzH
zA;x6@B_j^_jd+j`F&bj*3#dn$k?S70o{S;JJK6&u;wO1gj=VvJog{UUPa&Nh?CEeE
zRUl3v)*~`LIv)6gd?7B<Z@T)J$5{VKJ8McouIsSFx-_23H#r_)2PDS><`MdbEGP3T
z3nBsyC>i6JDCQC&6n!awvG1aI05yT^i1CB(bMPDo>kH<)9S8`-c!wJO0>paF$qw~l
z4;hI3LH^Z<bM`Tc7~>S}An$bJ7V!d6j}FbK0wBf-kggu|WIG;Ifdhpm1fm`g-46sG
z5a$}Q-%uap4M^q(Jix_NL(?b(FA(=bK=6@>`H%hq!j5j9yHSqMLI51liKZO;ED&Z!
zxL}BggEU9JfGA&1UEtgZJ^C3kTg1F4>th^{<9-QgNXcU;B<CyqCwa&`f|j&{9_Js(
zz$9v1k#S&r!48Oh0WuKd2r?(c{z2M-hs=W@VMxY<dW0F5GNmY^5bN_`OklDCA!A)3
z{UOY_0=@pw05hHckWmjj)2KhR{WSHD@@vGzL%(`addO(+4l$6ydy*RX6Q~B!?uLPX
z1p1XqSQfQ$N>dfNsdieV|7aneT1fOM{~V}+e3C*bgFozmSG50-+o*g#pb-1PT*~o9
z6ha14>hI7*`8Sf%jG_F~q<Dp?1pw=p3>9}cwLhCt_8?TIF3Kn*`ycCtEj4jEsrbq9
z0Xy(=T8Ciw--2d;vq0(khm)J+eng%FNtxs$#|g^W`h)s(Nc!`$?Vvs#l75hOWI3Ho
zEhBWrzfF&I1Pzk=2w4uhzdK^RB>mh)DS(QUj5vX~-zU!nqbYkE3IU`HJCskv#eX;=
ze+U!%Fc5km)(f&8WKQ)+9`FHC{&&Ux)V}_^{Iek%(j#O#aV%W{r6-OZ9IXGo#Z2R%
z%Lm=KqqG0BGND8et5GuM6;Vtpa<aFfYA&G=&!uPye{li!E3DJzEcwa)!M@Itj<y=z
zb6wgBRKd^s!>L_68VAVnjQa<e&&CCXxZfbu97XgW*$<p5;{K1cv!N6izu1q-`AzOG
z<nJcpITe`)vb|p=qn~6M5{{(oaGr#pm=~OAdQ%37leABx6nHL7mg9XwBbivr5cx&_
z!as~7jB7kEhP^md|0~7IP2JxjE+FX-DPw!3vq%2clNBi${?HV2p&UqO_q+7u^OE1y
zF4K1Y?*1{219lkCB%=I34SoK@0wSO1((NZd8aBoQ>T!}`_g5i#UW6Z_xS;Uw9>)yA
zUpkTPITiaA9WSZJ{zK{^qZ|nRUxh#F2liF69%QEYXT^*D0{(0}<oHK?)bWHPJ?i7U
zgL>d036Njt5eImn$9akq!v3F%|7qukKdT?`d~-B4u-s|R=Vbe%D7)Ka0gY@)4d7)|
zIi7PeJr7?bHkf##9h8%Ln4ulCi}x^i{|q}I>`58-K|qxMC?d_^A<q|RALZaD=Q;F1
z^7|HXs^A#0aNs)#)B_S}hWa~-Q&({mlIu%2r5{SQhjwEqJqfTQ^^l!#L7^LkGK8L!
z2tV~W84~6EMBa$v?;`l2;3UJ2Ez*q-yypVq`ve(kz~Otd87vz{Ty*%Ov>4xr2hRy4
zX^7MbJ)IrmggKrUsZa_$$55jB7xNMJoRDe$kS9Hg5PqztWJ3xe!wv{Ncu3^rCs|Gx
zXC^Vuk!R8#-@n2SlAo!Ja}9WaboKE$2flBlv*V=4`bHudCwRzl1U-KL3J5)0#Q5h_
zzaP<0oa~WT?ANg8v~Rzo5&|ru_HQ6~$nxDNpl}<7@B_tJR2-)%M7fCO9~N<1f1tn6
zA1F2C4;(@HfpTN&L1-mK0Ds^Ic>k!)_5C><os98?`+LYh^b-){66bU9a+2xnpl6CW
z58%9yb3N)qhX2sx{}?n-{Y;j_t_%Nt29SRs#tp{Dzpwr4OMkXqa=y@cNVfB%G9B;V
zT~Fo*GUg9tAmSnO13i#aIr#BB3W)kZtOMlwgK|#DsU8^@Cq7Q)WE_YS^N6gE_|)h&
zY^p*8S&@>vQ2~ymDaZW<iu>V$K=^@kHe>_B4)u{YtP=u+9YiNwP)LT^o7ykYjsYc4
zq3m%!*g)yc2tGwh|AZpO_nT`dc^OqMPRT};jK2@wL&^9qRf>{bsCLNb!={uT^>IH1
zG^N@Rr+9Ea2ag9;UPhH89MVpRDn~tS%J4pgXb)&a>HAUqsE2Z3cd8tD8BEnfJX@%C
z@!d80ubQd{p2tKx)G>z(<>(JFYJ5UZhes(stQ+tj2!D_V+-HGrJ2fDuQSsn?GUCHH
z0w3Z+KY<73sE2W`MdjrX<!20q@Plgh`*}>A=wE-z-Wi4jV%$QFb01`!|1d9ip@2g2
zIaeFiKKWg?1!a%;2%7IA`r*5R=HevP4i(<NSYiF4j=SH>k$<coc)p2o3`4|=eppTw
zn81KQ>UhnC=U_{y@-Y;mKH5Y7!9V<61lBWtsvi7AbJo-a#wFH8*dc#pzaUQ-Z-@(V
zf*%O~A<xDI4X&cmlWOz}<_TF28Sz7AiaIog$V(7aj`)#3<R^_PNB^K4G7UYg8tu>;
z&=kNQ^efDu2QTiMP)^!I4@5o4Ks={_EJ<A;Z#YL_{=yH~PoXYIerbXS_CS=Q-dL&t
z_gi%1U^!)ndRX=pK};c;AEKC}NXALZARzUmUnr*=M^iyWA=U{({r&g2=y(*U3e(Ao
zG&0G9{-!biX>~TifcAhyF=G+q9^(@-2*8hXG4w!;Z^*DG$B!HgD8zF-^e>9Zb(Ji~
z_<%jx50J61z>Y-lfFDTO(aCuKfO51885n~L4k%0wTy83X@Q<z<)>pC|`6u;|xv2?1
z5()}Mr~t@wOoY!L1_!AGk$%Eo(Cw$rk2oKpo%>XLpQ-jAQa4^e)W^9V2>nE=9uRs-
z>H^~?hia#qXb1Z@>isID>-S&94<5SlNvB7>pG7x<U=}5F8lOZpE}XxBD95@3nG=%v
z)*&h|%?HK{QJsrZT<{lmK#~VC%4MjH8SP@-L^<X&IiE-wyqu8C15??AA_mg6vyLi2
zJU}}8U!~tg5ZO@c4epar>`7g?Qi%Lg%NfkL45=$13OMBpc0g*mfyjmSsO9Lpp1hbt
zDkymkp(puKj5r;kAkcx5@xF`PmkIOl`GDS?y1@QV_VaTp{~@SAAUR*DWuLI(EONT<
z;mq)d1?C$a{-}TGXSC00|AieV+>G-8)$yj(2NQU%K#osNe4NTT@sZ^-D8GQ5`2Q~D
zI)o#f`U`QB<Cvh~;#5xB|I=jTf%LnRQuL(816>~I^d#R0@R0?S+(D!N)oS=b7dP5N
z{E+Do>kVBw`FAT!^F_z^qk1w<JWnHeU`O63l6JpJ{@Fax#X<T<+L1D8&q?l1vti#L
zD&n~()T9hOCq#SasCFmPR9H^wfiz}ZIOo!p|EM1AIZ+jX;2~w`&2aIX5$7D>k2a5b
z<oFe$h_D`DJ~8D_BMc#f2MDwM)CK7W%Gn~PeUs$H_$2kDOrEF6@?RyB`G5>0+xgk`
zfaHUmL|tG!Ku`C5EXwKD39?^EUey0lq{|B(56;oYC<ClV;Gx?;$o~I8-Ct}X8UhcY
z{udGLu+0P64$ZRuy<N;dvfg(C>VotO`GOtUkI=J4<eywmabHE|oo;;5wNIB{>?6n<
zkmOM&6@*+y$Pn?q12Wp9lc8sdbpF!SM;?IihZBzrHE=L4uz%3C13l)2KTQMVzKZ+!
zSrkDsh$zJP1)><=eLyDBjA|e8V*Dc>*vpZ`C?HUYkiiE;@p4?yApD^z{;tON65kax
z7siwx&rvw>7gP3h&w0=ccrb2&D5t~YRDmOf78D}QKtoE8zt4akNELIb;DQFpeu1Ar
zRLiC=@O+BX{6;;XB6R_T-i5lra0jA%AEm%^KCGia*kK(+eIUw_7a;W7xS&BYKNzn-
zRQp6-U>pHa{*K!BmOw#+Oxx3>>Z4zDY51Uyp)N3PkUt>oFm8Rx1j2y8xs(iZe4j&@
zeHY32@ZHgO1DXqrH?)J_H^#b(IIuoJ-$8ab4gW|G)0C5He78jEA(L@JPhvf#z;j)E
z*M;ZIK-8Or3l7L>Tx0xVoRa(Q3MwB+9}vx|;etY}7eJzz3*YHLk8uW>4)LB3-#-9h
zKbCTg^bh603)BVX3-pJnMBu%GJykFr1{C7&I|%i65#R59R}dG71N$2gX7~;gGKr{9
z>LGI~H=qoWCm`zkkO~wK$TUs`svZzDDa1S@zr%zbiMY=u^_*nn1>uq76YsUhQba)T
zUPVPH2n0W&{w|^%>k|+L_&yW!0f=&Z_c(=808ze#$S2$-<HYx@s7E5c&&2*LO&H+&
zUqby|#CO1S^*gBj5A*DMMdAW}|4W_-JEkJ?PiHSgC5*gZBJJ^AF{vkIPVFHsrt=8<
z84&FuPg5xc5ak)T;DDU`{n>KTZw~HoEdHK9%Ce0b|M<?<gwk&#=EY?~MnhOvIQ2j5
zNu;X>KS}#POGX|r|H*c+-;;XCPSgbudOF1T!+okDjUkyIru;N?e_ORU<rxrh0)we?
z+{aMjF9Y&<6Dj|)hFB8u5cNnI#dPZhsmJ(3Js_PP<#dSWX+SzV+-Cym?Edb0JSPOw
z`HT4rq_bnH$8$&^(|TQYe`J7e9jDWG<?VlGfaVy$MW_GYwf}h%-Fbl2(~TcG{qN2M
zx&EVlQct)3)9JxOho}dnv-?p!`FBZ>$#_WK#ng+$BUFJgCI8i^Px(ROP)a|9!2Xm>
zA~&Vygzu>iIY;5?UyP?HK02g|zjqI0K1xGAr}}RAn=i<H8#0NKlwY_X0{&)qzkg@@
ztJ_8YfR~h^@52AA4B$Qki0B|=8~`!y|El>5Kj0@2{*q`z8JNTHPe!zl{76vG^?>b^
zyzM9b(4h`wtEhwoQu_kdEq%QBrrH@o;b;!+lJ!Ca{(S}T!b$@d6mn{hF#l~L`Um}`
zOSFt}hVhPK<QMg@pCR3-hjP>d;yn`X@5ph0`bJa*$Yh?u$LTx-J0R@QPv8aOeHsrn
zPEikW|7d@b_I}j31zx8P+Q%t<5+wuCJ}`zF=a7+iAoK~8!$7>pK)E4tLxcH*av<Kz
zO{Nre#EpRn!9)J80^~GwJcubgOkpGymorhm1p|Q6lh18uqQi)Kq-aGbNEyZGXUG`e
zkbe|Csg40J`fodxH!?o(Bds#jfQ2kg$@qVJu%|=RBg@f^bmg!o=Rfo$lK<C=^bh68
z1O7i?A8MZA{{)h}Y-QXBv8~@#uPXyx8R*JDR|dK=(3OF%40L7S|DOTe$I#uckhO6B
z``L3f$?HeGsKk8`?t4hPf0|6*x8Xhw_g%OjgG}CU;eINQx=(VU?jJTz`6ClODZM4b
z`zX5n;l6AbbstCGm(ksC(eeFiJ?=lii~AqQe>IZ#E1d4T?1%t*P!C*={bWDV<$;qw
zboG9<9*+ZnSVw@L5__K*;dB4aKC7KccLxQ@eJzZ1d|F?z@}TU^Ek!HiDr<)IO-vF#
z!Lvjs>*%KsJTVJJB@N3TDjZ%kA-&2<VfOKwX<K?6*3g^0{%d~o!1jUd-gnlw*I(T5
zrNjPH(c}x^W_QLf);jy?nd-5MiT6dH7aaLG-uiHf!r6;&KXpEv>Fd+!`Zn6(r1_P@
z7kBA-2_J5^-@V*w-^&M&znmReWNG^K#fu3?CVzfYTR!4IY{tQvmLHzqD0nP=y7cjt
z&$k?^#jk9cd~LpB<*hy)@1}mXx1721_*X%nR~K69*JXW(;P(|h>^rnz{(MPi%d^Jw
zM!b`s;r%h~qhGXl?S{`;@w5HfK0lkiVfmLwyE>1@i4^S%ak`aZSni~k=%f;3e)72b
z*#iy_6{d!&4dUhBZn$f!LBMqVN%buu+2Ql`_6GL~F_65WH|lcofqg4`>z{4jpqV%`
z)%jv^q3E1(J>Rxi@a$388zFc#yH-g5(5Y(YO0}razWMc4{p(dU&pQQ-j|zP+X6jtg
zq_zKH)6pRdM}0`Oe3UX<|At#qMRK;UW`6davla!}TP>59=_Qw`jWl+vj$L{$yW@4=
zY~v^0mnDsK$e!bDTCKT%O11W?$>~`m-%H+kaZlsYs0+Pp_XqNBYTdrGd%n!O9dn+j
zc~u!qJ#*b=o|tyoa<OMupPVuf+j%MG_$XoN?X}z@VUuff6lCAb?$x7|Ysn!K4cS>~
zaoi`5S_&MuI+XZeiK2;y(%eJCg{9};<Q6eYH?$Lda%j_z8*^fHpQNZ~dWe;!dz@7t
z!`uJK=*@F{J9W<bezM-z?_Qz3l8}1Oh}aVn{@ZrSKJD>B*1Ist?l{Re@8y>lVkRN(
zFHbMLKB^*c<Njm3`K_mh49WL7-5E4z>DsKL6?`iu3P(*3chcCY8B(+~%4qb?@wGE2
z&TjFat<sWr^Tplt+wL|Kg?)4rraC+>_ceX9Mlb)d>Wien5T9Gub>1|Y#QLn-KkuAa
z`2nASi<cVhRS}Hu(7qWeHb;T4y~SEQK_Py)aN&hsNoCnPG#<KCPSfe}!rsK8W4yoV
z#}9`29jEqHS6k+5cNZBtbA+?{?lh~t$5ibk5;kt`zFBq{zmQJq`t`{xKOV`wePYE(
z5w{ULWKW0l=v8_fh-4o><7O_nSfyoD!p4sADM}w<%N2g!FHW$3cKGMcwc_HJFO-E}
z%4%7=y-4M5?7Kl_DdryxLo+qkM0@&s4t~+W-$PqTzGwaZX+buIi*<XdL<G%TelYfE
zyGk6-7FWZDkt&iS$BXPwY*aN;RW*uIG0Jz1adC>N2?_G@y?x7l<nVNf9ie3r!B?Do
zf<*4VZrht~v~!03)V{-$dvK4rTi4yie9LmVIJ=|+J$el&YV7W!wRh^1wiB^D*Bm{A
zL~b^IZZ*3e)P36i5)I3`*CkUzRL}YExtnojw$+juBD1#Gt0sFEh*a$0>c7^cSwzhB
z@ZmZ=b<3$E1rsF(Z7qM@Pc_~4?cit^ky(LBs>vSRL`-+^_18+V?Z5ZQq$@A?rG;<p
zKFy`DuCHo?c!7wu&URPx+#_bU++~L!lZfIiiwFsDYMQd$HMp{E$LH~Vyf^f_+RI6%
zs>k4Ns_Au4RjN~*)rW@NjkwXv$xvTcr7a;yb=_BK?$18*2|<(hcXWQVc-l9t`?L)+
zzj=Oo*JgfKpKhvYwpl&j#0_;F+JB6@xtgF!eN{td#SPwG14^!L7AZA&ag+PoWuw}1
zZk4FJ2XB3>F$$cT^(G-G%Xw1K1m^>h{d<MQb-3qTb{_aGb+5a-%*j7JqCQvtR(rRM
zu+uSnwMW}2W-PT+beyf<Q#B$~&LDN!G>5@UV?#nECsybSm^Y0K9kcpPq)V-Sp6Ly{
z<sbUVpAek8Y5W}dAnRGSXJdxG)iQZM;`Y3W5A<b)>PALwU0I%F;XTOX{Kc5P1H9*y
zHS=xTx^n!d7yYwCBfJ_59<0g<-4xYmW3(-_?%o~^`PB*rdpjqt%^@1AEa)f;7Cf7!
zEi+hDpj7IPho*6q{A8JesfqQE&m>rcAJ)2Hp*i<irH|&3cAwj$*Go=R+g}~Stvc>w
zb(+Z@?j22qzI?o6<G3?p>;x53gRI;}yGAVN_CIvbM)HnbwWEOltj~1Smm?e6x3&xn
z`7}U(SLhPOJpFRsQ4;g&<#(_A(sJ7}&S=_M!`?kCC6y)QKYY`gE!@*|Mm;uc^^ShM
za||7IE!$GBTBQyAXjEEoebveTsjoET@qyW@Ep}1bPgky&@v@XGpE4sO#!gB;H7KfS
z|G{#LHPYof@`wCC4_fR#wwNp&zRDufaFw}c^t}8xabJc>Ii%gbV|*b0@tI_iZA;&m
zoROY%<oPI@LucYdC#&t=GHUH+Uv;O_X*_BX5#HM@W)~mPP<mwc-ea|<siD|H8OedN
z0&n}enipob%E=dXri_&AAI={+O`z}f%^`v3F7FXMG0tFiVXDu$h<QqShO+#U$y-zv
z8lI{j8yXlFa*cPo)YO1v-6^_j%$s%p@8X;+-LOQ{(ojiQLQ*(nP{p-x^;cycikSPx
zM<R7eaKt<rL&JftR)sG$x~ob^*VpMrUgwdxZn7;x`)+PTOm$~b)f;z->q`P6PB`%L
zd{a4JSh=_@Aa2_h-sz)91xQXEulwO!Lv|llM`wMjJY%AF{*>{$vTZN>2Bhs2G?tKl
zyp%7}@G8&rfCB-V_Q!b7gwKp_?xP_*P%zTSfM<G;T|isr-M}lFH5qZD0|iar`cGAt
zF)$3AHoWp1=M9Rp=nu}_S%I1jD^n{i#}m~*eTsAmi`Ypyy5t+dh;I=ky_``pXW7BV
zluT34+Y3`QYOc;OKHI~nIxqEGMhDJp>g%c{aeh*Pil$oPurprwUmTd{;#FM!x-wv0
zT6@3%UyFt{eT=W#4|$szG{hyo@p#eH1FfP5>UInnCALs~{NpJFy4JS+d8@X&MU>3?
z=BI5RE8B6>w}&r&HAhTDOk>IG!pjnyxubY}x1N$uw!Sy4|3E>dRriJs3>oy+Ah#yB
z{^_Cx&;KP4x6ejT$<Gh$_ptryX1joMI~GlN@y7Gr5e?m0SMviUcMj5xOcat>pXMd;
zZl&<6|Jw`GT&4usoqU}+AtBII`CC*Y4(m>s`ZhsPVnw3x2`z0$zlTp+d~zZpMOXh%
z3R^OZ1Wb<$M+R--70wlo<SyXx9aR!hk{)(AQM2Y5&-DEK!MT@3W~EeBuJkjHzd9i*
zz{$s4cY%3zpM%XRGn<plbbD$lC2HTb(+z!jt=&0SWLc|>e0;&6V~tP4_xbcVa9(+Z
zj?3&B{U$_2jSwnWeQbS9wan4?@5NPP=4Fc9v&?rnx2)ivTj}uwy?2BU&xmnKj50b>
zdBZi`OYYv7hVs-qpVs9>tx~x>W8zSIhj7=2H!5C;K00>v8-u&tGpB&4RkBxah~2vo
z)t*?adMxfn{G}PPBKA^IAtx&8Elv-<ed)rU_<^TQZ|93egk+i~h3;GSMB@14W4E$A
zCXQGxCAvK$a#n$PRlP{|iRywj)tdt*nhkz$C>Q(P3tPF;@HqMTX_9YkC9FJ;ZJBpx
zWq<RNi%Lqb1>LT{KXCdod83A;skz%z>#76i-#d1UZ}5(A%|6QImv<`el+Av-$F=gt
z%Wk*5Ru)c>C7AW)qHFHVj~qJm@%d-o-TDf(DoIukQI^bJI+|y=VaZy9Q!k{<hN_Bs
z4;!kQ+AGgPglo~wR2i!*{{B^S9?R==%ZW?B6y&+)>w~22)khli#&K!f_N=;`xIc90
zQ4KD&V~x(2SEX5bZcR-deT*w@k7l;Hv6w(Y<Iu{CJs)#6Y?Xa?&eMOw`PyDGT*=&m
za(C^y+!lscEURc(l~edRJ&8M$YnPZ&nq|0ahOJiayKzgNy<EjJR4b*I_-r@JY!hR7
zv$RI8Z&WYd)W)wbGudguWoj(HC}p&uoS7$=n|Vp8!pnKikp(5n(IPIUyj;&N6@;`4
zaV@%S|D^V+=EhsY%N$!J^m^IbFEGhjy3}O(?AiPp5%B{bc%0T3cF@nf*SgcR+k@Ey
zhSy1N34PPL$*r>V){0yuW1ZPMHt@{pW;jS~L0TbSRmRAY4UGq@_dE9TJ>VH4wZMP)
z<x2O&c(?S*Qi&7#lV7Ee*w`!1{?+DPijGd^xrd$1-Am^PO^iqmf3Rj{Qq%f~!H*(m
zTr1D8*_J$G)R;vTxta#eX@=U*rq7V=CO;-LEMix$tA=Z~s*QcNXzFc=Ybu)`a*ye@
z`>yzXcZ(N^XQNXjEM9-(=9=lsw@m%m>hoIi@dHaXtvwhiaK2|lAOG2c`?)%8GLttu
z6-92aYF{wSv`H#K#dh<PJ^d2<yH<!TeissI-Q8ns{jI>rx0mdubC(B6Ez3?FXEi_C
z*;LNh@tIU!g^1oFqvrhTmkBRCEnoF1d^&BQt&7mGdEM*J&yi9*BP|;yT6kO9;L`cS
zbGWpuzLoj+QY%&)Uip4TX7y6DQHlorGxCC}CJYj4H1_*e8Y7_?82xBv_vRZ9a<Zib
zUynYwMNu`c`!L601B%zqoY0{ARl?|hYV7XOJYuo5;+p=2&oa3b;>36hJ?3&(1sT6s
z6IbeeQpL#OHkYZsj=)i+;_Q?g=TB?qdbZEZ+#0D~bR}K0x2&C;Id93kCH=R*tm+%U
zU7_kY?^Dg94;S_)9gsWBlbk;Ig2{qD7HQ2q4>Hng<}Z0S?p9gU+@52z2IV{{zQ5LG
z#e~Y$7O~?)@*LFqo!-B2f<}0jN_v~pD1nV7Eh5X+vrfNB(B9Q-x7SQTHg;u*&i)%x
z>*`W1HwiRP>^>pQwe_~)y9&Fq{e|HhLv)_Y*715pB^2a_<@IlV{?Mu*Ek~=jZ1>$&
zJfGB*^2g?W6YRo@`FB4wk5#?)YX7Q&7VpnODLf6%Q!Wec7m##1lb-J$nycMUB}`|x
zXuR(H@i8KiVlvsPNe$Wa-W^=+ASNYcH~s0Dc|$WQuQmnQx6WP~^U-g1;t~G>HG|W`
z7kPe4e`)u51b5EewSDIoR4&x==~m;crM~E83(vy?S>aPZW=%~Odu-#-uQzuA_Y8U4
z+v}DKbms0jW8iU4srQAKb#->j4BiNw@)a==ZIeIml{2w-R{q-_fu|+-&wp@ybbfll
z=!b{=!yZc7NZ7ab+b(i0b6SsDWg$x)@j%go&qJ+hYDTwb1jQ|@w79BgCY$fMFm==Z
zo1G%vg+J@cd|LkILgC!~&)2P-|DkrsixX9bHFG1HZ>u=wcxdc@b|b27Tm13eI*qT!
zeDyzl+%0bMQhAH$m2a=#$;vryb|>cZ^IpDRj^3;I*t>Y4al$Jd;m-r(u76q_{k2=}
zV4wRX`xdUfuP*2x|9+a#-WN*AtM<&=b7*?w-qp+7ct&jw8Fwbq=<=rzvqSr<&2%@7
zOd6)UWYl?!n+HZMH1J+9;i$rd=cXM`Uepd0{QB7Mf>okPdX>zRbz22{mM*`ot~cdr
z?uW_29=f|fcz@6x*v`Lrut1H#T<^uNZN7ZnR1g__y}|U`BLe9;{l0`u_HNft^9<WD
zIOfRYvO_IN@A}Q%!>6zO`0dNZZ&jo+bLHnc@F~4bHu1W5XS-6>I0fx(exE*eYMlK#
zOn<y!a;c}jMzh~3zv6LiJHGfDr%$#rmS45?%%kx)+{gM%$Sobe*JxEijsJ1|>(!f{
zaEU&TwhjwadD7lqx}xOW${mt=dZs%*HNJIhw^|+Hx+SS{kbq~EmG*PXO<el#0!rM1
zwD!i!B`OaX?W8oox@hjfX1S^SbM#NtMSaP+@%CgvijSA=vFFQN)0*#&X<nU@Vq?>~
zYTss=BHmNup3D<25Bw6dZAGoPpZDA)_dOQndAIIts$Ua4t!T>>**UKkTpHS^{n6Uh
z#ZeV&j`zG2J1l?BIES~%n+DwUd}zUQ*m;cgTGeL_y+Y@292)y<kY3=)^J11sb#aO#
zoyKl{8UJ$cOXax{XIth?dlk7<czL4ig$19_^71{m`@kF7sJG2*o@w9--F>@N7uD{6
zKe~CctMu!SC(^IoTG}uuReXG++{jIj!WzbeUDujEWU&Nyd`4UBisbhf_@4{Nab3QX
zwQc>|WWVveYsW9`J9qS;-I3RB2ahssjuSuPm45d0Fe|rot)`g<!zRb@I<{FaxFg%&
zuz8PFT>AY|c@KfcxW^qOQy<xzK2>%#?p$}(tx%k=Y0}ompAW6R^xjqQLaNM%9_uXl
zKig}`gnY3T8&u%kYrXdzO}{5bYh%Z>X-K`fJGsVwQ`2}C;{jTS+=3<gJ)JbYZeQwy
zqNHJ)Wph?)#*}UIHCm=|bg4(}zL*P=dbhRsM}}B>nw{P^swlB2^6AnNwIvPZj-HbD
z6-|d%37<bFH>y`_cx`@sXY+~Lj{$4cjeQ^NeJicRd+pOR_xM$JCMxZloY^m*dwJ3z
zkG<`!b2d$I;Pp(?9p$>>TE_vK{ynF@axsYcaP0EC%hNXU1}qHQy-zvJBx}N^u%Y!U
zMh}!Ox>#x|uu3Jk-MYZw>)2rN)0>K&whh&Az4UQPVMpCG?#FFU1$SP$qZX|3Wm{PE
z#EAPcib~bbrthtNRAUudtaa@F07yW$zv^@X)#h6AwzC2)vM%jfS%F5IoRY5tV&e*Y
zkzwn-%&?UuMCb?|LMRt>g{=VU%tzW$yJCun`~@m$Vw+=to~`T2E`25Bp>~L*%2af(
zKfFWR*xF%bUeAQsZ;RONSXKT};CZJ1Ud(W=dGCHsj;x`DNu~xLsMHSp+I&Baa)hKV
z{l|^06|71b^fi1deQ>PIZ3})oi)#|S%KEjSJ2F}}wjij6%LkJDCPynjFgoA|J~zAA
z&JBkDGvD;=r1D0qNsGA%!O<-pZ9DA{B+)jN#RQC|@6yViMOw8NMh<H{$#YAfs~@e`
zAxp(_z}6oz-c~>K?IqE-Dc$iUIt$f~sXQ0fkJpDxUOJjXmxia*q>uYx03w40NL@M{
zfVLDs0Hr3;PN0A#Fxx6%33MkcU<r(408F4gOjrVI(_jdCE^Vqks3j~yLP<J<MWD0N
zgaab58F_+5Nb!`Uzz96XzzEKv0Y&&FNt(bS6b$hk2%&Vbrxc#S>Lv-yz|1TImLVhA
zln7V`<2Q0BhQVe`&M2G1LRkNmCa@6Jg-sYNL~0GEf`^a_cwidgnDQrh2)OBG39-V0
zVz4nWtcfUGf7B^b;zL`&4U0O35^GqBDj*C?;ldAm<^e?^2`ojGAvA?i-#qnzVy!%A
zi+F(rEQPUUfI+evg&<PFQvimlY7~z&1=d=&9dZRcI*r<#r+f-e!7#M$G!*cXYABQ-
zz-?ij-x-a8D9SXfl%UfB%#e&~E?<n()C&wSC0@r!IaoxkjsYmHbqqk8Hma|Ez^#au
zX?8a^;G*QHHX|Uc@Bza%2|Nb;5H;?2l5*%FYGed*nXZNbxk6OK5SYygJcdkZ>;Z-<
z@)Q_D(mBJb5WpC2h5~M3?G#1u0@&ZspC}d>$`|c+wk|P}YMlae#GFZ!HIyE$IIRDL
zg}`ecIBW?Xa6Dq_L%#rS3Tko)f_>ls+@aLq092<94#2%i4Gus@Y==X|3lBJQEC};}
z1JE;VZ~*#*4UU3g;e(xfTu?9CV-2rQ?c~}zLmqH=pvPRWL4f-oZc&&~4y?!Q%vOma
z25t}6C2*m+4TqUjdf=~H4iEewcL)Ycpf*J|I6TlFmV=R%7wwUo2mSrvfcD2M2VjV<
z!Qp{FW};HMQ@|FjD-IKu%8O}AV{i^Sr72ZVdOavNR%=lK-RWL|IG+$wg9MGplnE+(
z05YY3bC^1aAUT0ri`oHEh47(kK;6`!G0l}YA+R7WRJX!u0SvO8*mXSskqRp?Q_}>2
zAFQS1!Y!>=AZ~Iu<pqO^hIH#&lu|Ci7B4H3@_{?!paHi@!UZw57jW*~-Pxi(BMCG~
zxj`K4d8dlRu5U{+&%kzsY)GmD-Vpf(OX9-rDb1*ouq0NsRxUj#$)h=gPpdWz_Mk~O
ztm|0L6lH}EC|bV(ZU?PUs&kYeCtP9uS&Q2FQUEB?{@f3&hoZ)0$DejF5Ai|nP>33y
zO2Hs~m1uYWE}&CeKUt_c7EJ=PY-}@pyO@Zdd6Y|QI|Vjgs#AaLl%vX4!ooBhZ7_eK
zw<}4Ii^F>`kSjcmb8%+G`j=qKJiWbTQ9#M=)z<<y2jauRIEQzu_+ViA_1#fKE%*%Z
zL9B|VCQc3smd2{PQuk$E(754?Q;H=lP1!%H5L2E|xqzkFK3)JCz3lI)K1dU_PXlSA
z`g^PYkWtma0mlZ=Ow~_pB2U_OGteg@2KyriQXLQK8x$-PpZ+9ZQa(HseFl`Q;qFWd
z_P~_x=s^2Gu5N{$18X^aMiUC<BZoVowNkq3CzZcHR1{RURA`0;k@P=33En+L9mws7
zs<XM-TpRhR!10o((|9jD%e~cWT#lZhext@;%Qu#kXQ`KOY#Fu2*?Zr~Z}Qwe%X4??
zMG>vvxDxcLG~<8~oSk}8!a2(xP}aWm{{y#<K_!!~1ELgo+RdG7Z`(E)g|UBBJ5HQ@
zT>E7gH0Zkfz6i8T+gxSJrKmLCub*yCq$I<V_q^dL1{8w}>p7-)C(mj2@%r8M&2@ZN
zZ7)CFhI;v9{=+<*%}jOlc@~3l@iN%lx*Hp2v%K`tIA3KO|K{y^_D%MJZ_gJyQ)QJc
zHktETEI(PFRWVqzKRxQ^ef1`L-ovhA^PSo3qdgQRw?8)zon79z%Eifp;fKyI4#6I*
zUuU&n+fe0YunnR672U%H1^1HgosWyGa@&`DcRBv<swneMFZlL<zpNKLWVx?nb}+I3
z%FABF^8erN{Os{(ncE+Vj`zp2QS<ETJ5#-{;|CM3yZ_!*7uAPffBE(=^ZQTVXJ^gV
z&bHQH^|<CoUH;boU-OOG@LBUCGq<+B``aF0&BV3tr6LynXD-@3liw7=j>115en0I6
z3<CBh59LU}^ZAQx*;GNjcb|ex{Lz>9t?ogkOGrOGD=~fe%-$XX<Hrx5#pA(F@qhNu
zdCp)6w6vkiH!IhE{`Mjxu*06lF8a?Y?6$QfXD>#zodvHB#`EBD&nxz>l_!S}14}n$
zrO{n8-@m2N3$wBXk6z}6NB`WdI#~4DXXPP1{bH!|j*8#g{mKR!z8zso0)BZ{_-p64
zG=4Y8xebk9blqO0@|#sWjo((kRe4M0Qzm$qqxwfFfU$tWl1qU83Sv0Y1Qc##quX1e
zfVL5q1y{f^a!VlJnLraT-d3Rr2)2q;0i3nZNWd3YtZ4%J{hi3Ggf}KQvvzrU0mEk|
z#^6>pqazq^@ii;4f~|nj62}UPlCdUwYNM5>fYTifpKY9N`Xb5(;MM)0xG74ag2@pd
zO~Ku13r#^Veru@;s>0=51+hL9JOz`pm!t~jZ|=v&W~qK86v9bDUizwiDxp1|By|0<
z3Ber661s<TC44cC{31BV1yc#Z8nT3bq^3&PhO$0zC2$UJCK5OU^#chp-*F`zOt79S
zfiqv3NZ?EtCK76I0(qGFvUBWGI8uAZZtfaGo%2S@ZtBRLvUC!-V?-yx`3>Qyb0UE|
zMsyOqy<wLEcZ}#Ha8{HP38XP%HXMC7?;zXwrfb;JGz@E*%56PY!^&|6%dv*mbwJqc
zdY~cJf&4C5<K=8JcdE>W*Eahl-Hj<~o`#_+P&T1Y8oDQDtFrclDcpQ~AX1c79V|`6
z-5LGbZipg=V{*ogos)=uZCALxixo{o*C<W{XmSx}<BD1O=scsF7^~Qnq!YXO+4%ZE
zGrPB*F{@iVp3X1|V=)=YzlzdmFE)|3X~!0|W|CX)t!H!@<9qeQmvXvc-;JfG;iRJJ
z=-1=>Lotl;$#q<ecTH{Fm21wui<6M%Z*6e-T}`D4849DB{H@B3t9CRY_ouF`6~V=H
z%fjqgQ_<yk*Pv@J<?3%sD3Y@`PfX0qwQCkE>8FHeXVa!L)LdE%TFg!rx9Q{K&Q|Up
zyMENL)AzZHlZ(-Bo5r*XCjVrknlh=Y6ts1sSfQg6#7ZxkgIMV`F3_Paws3-6@kJSs
zD|U^dT&ZCc<cjx(!2ALEf&v7~F9V`r@$Ci>EO(`%V6h<;1k1gsAXsigm4a~xDo6&7
zpFlETdj-jW<5fylFuQ_i#ODg45sRw=TDn&bq7h@O0y_0PSHsS#!InB%RoKKbm-<&h
z_OODj7;MNk3$p>otOi?ZmQ`SjeX<J4V`7J@0z3I)OT(86vLQ<<$cEggVAL9BMAe9y
z6Q70Xz!Nt!73Zl2Jb5EmaeIPr%;*WiF^{JLTz(^10WNn+D8S`ca24S4%eNrBy&Ynr
z^fH+cuH@nb>7aoVq=Vi~6}s5AsX`Y!HZ|zUH|>>tni_PuMN@+=ciw2wlOJ6uc`|kA
zQah#wUGB2cpeLVNDETin=yL0&23_vD)Sw?(eI4kv1nHp7QiD$G=RtF&2A$T=gO*AS
zdVe*MNau_)pp8?5o_>^3GH-(TZXrjgcS^QV4Lsl&)xZO0Q60S4C#r!b4D(9vP!NwA
zLqR<12?g<}9aM_fa)N?<*aQmmLH{Sn@2>S$cDql!TYtw7cI|T06oCEA;KSBekPo|F
zLH?JWZP<BX>MCvfQ#0IZ2!On{pn#KOB>l`!&F3o>pl9*bP{1z(%-9PmQ1JAk3hu^&
z<dY#iL$OqWqL&zypkX5hCG?}xeSJtNLDR$xYEbbngBnz<%b*4o*D|O<#jq^Zpz2kY
zinx5(OEYfks+*;yI$psiEtK+_7HO%ZS9M3r|Cw>nAB}^B4rv%H^)bL;>GelB81+fR
z<kP<)o}MiBXv1W&OB*LkecCWtyhxFgVXrofmfyO9(efL`I9hz)3P#J#;y7At7l+aE
zs|PSz?p24;a<{r1jr-MMcGss=B)0s#A7%r7d6*42=H+Y!&pZrAT=Ouzn;LFB2acHb
zRp8PiP8g0D_f_EOmtV_~;WGI<*GLY~p-Zy^l<1C0m*xk+bSOapruWP5a!sU5&(dK!
zv?HrP2ND!?=+X=Y6}mV@0j5L$)VK;=oZ_HDCv3%NBsswJ(}Os4C`kgQx1H>^C|5kX
zH>{qvrSsZ*OOL^lemj&QBB!gQh`@L(M??#sysKBq64AjEnw?6R35>_$OkjL>A&GFb
zb~T#UTVFHrT@mo`ysC$V*}!-#QAPzXH-4+&<&HoVyxbB9<FRBJ7(d)PV+}do99!&w
zhVjjxSsqO4$(B;E56lOnePBKq?xVyP$NMPp#Q{G$e8OE1rH~&TKH<WNQqYeMpK$d=
zDeOm!FOB=r;me~KbohjspHk?L4qqPoqr;a6|LE|Ky#B9S_4Tn7JU+4i=~umhHvac#
ziQbi@{s#<yg86;Xr{D8Yil5Tq6Xzdb1eFe-*#5y7DjmMu7Ouu;&40i!Djhy?{?qQh
zG=-o1l<~xGw_gtRs&F}t?^dpGF?Ii|6bJ?jKqJ9m0ca?gjsPGQOh*6^45lSO91W%;
zfHDnKiU)%QpaEg9fcu5eoG74*CMF*WrUH1C5KU==1)w=?asgUNZLosDC)7@eNM*1o
zgKft`!kSbouTDV$m{<oZfHUiG1!!s=tN_lfgB8HZb+7_ByH2h^Exk@h0+e3|OTZKC
zU<r7Jom_%mik*&zub~{UBs*BcFjJ^KW3I4xcwvz+Y1GT~!!_Wkey|3GTt8StyPMX!
zWSX8bCa;r<>4LC`$s{`Y+~NFT>tq~oJ`%w=<(NcmtZg@!On%gH{^+QW&`T%=U&10Z
zqA%qlG{Y}p6)N$Uu!>P5?F)pXqU$V&o^wxC(KilLI8$*{s6>*&DpW#AVHKl}lQEDz
zR>2s_G$UH&Dwa=7ZwQ0gIBLe;HY2*H+@W7St{IH(Q#CnPF5~j4{bNE)(arFc>$rNN
zJQ(Lo>T$wyC9e=DEEe;ck-~COFANp_7x1?pQSX5Qy$g8S)t%XH<2DqA(Km{B`*M=2
znPP&rNY@*Jl8$UP6sh6j*nRqvlw?zOTG&M{`Xj(3BUwjZ80ze#*iX+-&-<^IJ-a8n
zUB4cTUwvPGnX<`*+oLL(GhDbO9a^rcXZN^dt0%1-9o$BWnw)6JK0L13cPt6IMapCr
z{-<oMO~b6%K0Ge&x_WWGx{$hjz4Q9%>}^MeSSh);#I#`*)!a)r$hl)M=I;zf67e5~
z;r8q1t+v7mt+-^|+;QRM$lZM9bS8yz%=)%9WG#CWZpR8;9q*9v52Jp&gyl7Z_U=B6
z*`f@8FD{g2+*(}<?x<q!*b);>E4$C$EUo``^XE4^ZUe9HFZt~QnZsn9vg!QO=>sp}
z{O54`C7!j<E`B}PrTyXOmrsB2Uw{0}X5mh=Eve03gz3Z@@7BM>pT2rG>5rwGv^@N=
z!`a0Adyw;S)E@^t>yGh4#N)j_`rp%r2N8!>cE>?z!>mQ1op;B=y$ukqaMS?d4jK#u
z*M?go;kpLtQA_dxa2MUN<fsAh)`DaO#49RN4vAM)bO7R&yda6ht4of=+wjt8Al`45
zWDUgY71J#O@3OZS0t`4A42uM;V%7x+xS^&X0|XpnHw^*2Iz4oiP+K746mW_fh&aWZ
zwE`lR$z5|`#MU7_c~Mmq`T#}@l1l4|_uL4MF^|`ob_1CfIkF_UQ3jdHIkGcHAmnhC
zj3_M-a+e;~6&iA^OyVF96=x{qXsxwGLq0mRQ7(7f03k=G2&GDsAsey|3>l^Tks-ec
ziDXI)l_d6r^!Rms9u5gP+Ul*;1sJm8PzF09gX!gn><l4|atg33Q6eDs$GCGw6duDb
z+GN3B$)&_&#&9!oW~ni%P&qS-rpuX8{JBlu9s<&w*B?uwQCi+MSw4f5hht9i!I;6G
z!I&SYrG|P2qsD+~)ykM*+H*2y!_}6+n5`5g8ng4QL}IpLtGM$9i8-YSjP^*rX!w_v
zhC{?w(}#0B$gDd`B<OHY8zn<nl>s_={oELSgo92nXwYw5z)cU7MFV4KLmUnoWx2x$
z8pR-vpive+jG$56{|jhW?$DrHZb+d)qeNOGXq2#J1nm_!a1PVkPT-C75zHc{3|@)^
z(4f(bOP4D(SpIa^7^s9sGA=12=8P|qM!K6BAa#}#bd--4jVJkNK|m*8)ewzUBWN@|
zo#ZRp<BfC(0(b)m4Hda0`6%_45j0xl5{nmMZeX+w4$!fB(fUG)5(`=sLJ9|A#wY!%
z<DfWjR-+HpU8n`4sVAcXMl6A%Q5OOw_mNW@Y6+r4<$~II12;o(LdD4_rDu6fK-68W
zXwRibqCTgZrfAgGafjiCjH$t%#$M@xbU_Z(UAigl#*08b&DR4+Z86%g2JC*5rx?m0
zjdraKMUM|9DLK7Z8D3Ehh21Z;#@K>pz)q`1ENvT%?&K4;p-Pmo%aFbSVRt2SDViVx
z2s_Ci0(Kni(Wd<X*t6V9h8qjz;kbj*L0LUFaQA!E;AC}X`5q2+nBxi~n?1kIMqx~p
z`6x*OI^uETD45pT`N;G33dZ-IU#_}D2`uxs4REvd(IK=*;3tm|Y{Zj%M6D8QWpNLo
zU^^Yg!#TW_Af-)C@4NycABFT7zWCx&A;NSkUXjDJ!i;v;uPDWv82vDdt8O|JZNA7G
zy-xCh$h&CyY(@ddm-)I6aywn2?2t2{53%RqaRH%cda)aNAoOHDdt2Jzp?9i<OTjG=
zdOuB^H-)Z+-2tJWH$1?pZ!WJ)DU9cJjSk~_Ew37SVT!b?cVY|_?<;@J1|5R4t8g}<
zSY6L{7=yaX8<f*8po>2VLqV?JE0d$>ne}DX3ur_2>E@l0hiP}3J-pL`qbpGhh!A^r
zQT6I|4Nw3wpA1f!3BWtD;;(SG%SZ~rGoBBx(pKBxS{8<vujKyacljHvY!XbviUHmT
zc-qyQYg6Jd6ozO25rvkPkAS#aT@e*8>z7QXMCjVvCaL27`fVbJDYbN!BxIPu!U%cJ
zd(!qj=P0-w564e;WDdr3NV;TlJ?-Da+Y29b$V+0ivOEcB4k?=XV>)nwH-RB0XE_}g
zk3kQ#>5Dym$<XShL(@l;IKwoK;b=@>A4BrkKN|eHe?Ez?u7Mq-7}+63xJxk%De>4b
zq$&3N)q$O$C2bAK+<RQ&+&v9W+Q7140TclKnQ!1=u?dh3-Wx!Sj*~u~n<u(VcFD?j
zGDtfUNCoirIX+~?B{Azz`tY~6JZuGed&eP)W@d^mkzKO#_6$<!aD2mbmrAZeb@vA1
z5GK?_-Q}^%Rvs-gY_<5dxq(q`nr&3TuOb6&>pMyi4udm97wN2UV|k3sI~A0Mq9QN$
zsCY6l3zEQPYhJ7xJ0@0AQpr`Q?p_l##R!?GyF7N;$`@XFVL7V{rm0tbML|f;g*Sf<
zfLPYg@Bz^<Mn~wuuw1ALLRl`_t8F!b7{<mXLvj?#vcWsFJcvP>Ct{u1>Ca|nWJ7Wk
z>auaWKp0IhnuS5}`^KIf(&Lbwk!W?P_14#1vrY`@_`CIgI%~pSe6Tfndxuln;^4>@
zw@oi&p@KN4Qr9odP&7aYoo@TxSV7z3ih~zB&Ke-f?N?n0LMKuOL}f!x7f4+*N*B|n
zHKT)|)ThveAe8JnAU-ZyHPF<QZCYuz>y{FZ)y*I#2o!hwI84}g90XR|Dr14?kS-2_
z&CYUi7$j=<QdQMuzxSAmaVm-qU72dYqC}kPLg2GWB0m}xBo44yL2|*@a^LLy`n7nu
zX@v<*0nM`r$y<M8=XF7>9ksYV^YhvkR~!7Bo!15N&dzH^SlfAR5M?{B732duua$}0
zd2Iw6JFgXCZRfQ?RN8r6G}U%qKaJoB_2ZNrp$Np?hFToag=y1g%Y}VWm^%hxAHR68
z_c(PU0-Qg2N>Pt}o_!&?^j}-Mb)Z{zaa3DrjLPl%!f|@jbjsJ;th_h$t*&%8&1je=
z-E;n<I=+>jXF2@};4bC73>Ucyley2m^p=p_S|PjJbC7yPJ`)6KRd3W)70p-hSDUbQ
zQ@FLUxLcdTVREoFF4z(dUv4*Tzu{@+vLVEJ&LP|@zc|m3hsbYZR^fXWS7^>|VbV!Y
z8<JM!dYe{Ab9b0VY0@6~9|q7#Gvb8F3@tsMJr_d!9`*PeO)AVg0(Zh+e3ibT{%(*)
z5elf)_KOSiItM*|m1e&tH<tf8>lDQ^Z@96<ailBG^W1%ofu%B+W`Kr(3!^)CZ~u;@
z7}x-j#rdQm;N_X7N!Y?1)D-Z_*{MnJb@Nt};@He+O`$H$bxpz+X2GU_e>^`nB!Zfm
zvvCpZ%k^pup=vzp?(a|Vl!Q<*#xx}l)uT_P2_Q|oh3tFx+0*Ee@Gk<3qPE)&nX7@c
zT4)Ia3K*H?j@a>4akwV#L@23Y{Ris5A6wZw-UoQv-B?|F+Byt=&OfSSCxJ_#bfs%K
z4A|D~#*Z5Wxa6z0L*d`gaop0iG{BaYbT`J>mfly9oJgX>UVnKdJ=#}&)sdbYd>yxb
zvhQDd6w7r?Ql{p9%7o<ctgqS)N(OqR!6oGrh>Z-t=btX&^1Rn=QG`;F1T<oSNF2A9
zAL(}Ftg%>$%>Nu*IQj(BdIPEi<LW>9ckr-V`8KthrB(^_E=v@+X5PyQv<XEgX%+`6
zV+tndWbin*+l?8-Ab22=^Qo8(m|&6Jbyc!}*zF`y#Jbf|)5^}S@h$s*;koD3Wnq{E
zcnJai27yH<Qbmf4^zaVY?oG0S32rAVi;lIcuy#&$*jBNl*63siDiiT|okG>>2~$cm
zTYBI(nW|j<D*^L%Fy#9j1PlaBc)<3vXZzj5TBSFKFa^<Ea>*5qGKH`SaY>5}8y&9!
zG(tWF#UnsoCkaCc)TLdJt<pCK8Ko?~MYP*Sgw~y=^D$`R<I~*D@|`FO2!Jm^AT)$D
zWC4sIoYpEN|CpgudxrR^3~LvI{yCGi4ZlOkIdvw7k43I_@z&JDt}>-lwOU5pVf37O
z)5FK3_nvXLEG6f`N~2A%8ziw}TnjQOlYr-C6;(Q=r#wo-;;chjk9&Ex-_twed}IHF
z(fhY-a{fV^@CUPLue)UI*+GXeF_SI`k%&DHH<egZQ|TFj>s*4ItsAVl82h25uBinP
zG3^jK6>Jvi$?#TJg<2gp9hft_il>n(F9%-*XsU!3Pky-FTSe=mnSb%Vu`mOJ-xw!j
zBeW6U3%|7P-QE@`>^&Le=e}&p<3EG*3pnFn%HuRsJKn#>Rivedf`@B(T;=k;T)ZID
zzMvb>a$QD^Rk-zW8-)do`y@Ohww<&sE~J#Ef-iM=V_2y@x=JNMkC1WfNC{w3SF?2~
z@^qHnl05~2sYG;F3KhWm32OIqy}r{MmD1nZP~7y$J`U-}in{SoNmodIN?(t!{_;oB
z7xl~gqJC*#)c?IN`k?UXoql<7je(w76`omfs<CBfBh{zB1xfA5KI^>to6hU;$XetV
z@8l!%dDh!KI-l}eQU_koy2o$C%w~PNK7!8To{S)#q}}#IvUn|hx~HgS<xwMF2rOEs
z?H@nyFQU;`N`gcHnKL;j=lPJ&GzxqCKJSa*lp^>On6fNX{;B=7|E+V-0j9W5fy(l;
zEjib-&(y(iFYI!IFp0tKn9<BF1gQ)n&sE)1xXEVu%&PaQQy)ZWQ%9`gEbQJnaAy$?
z03c5Rwx`1gbuy`v$T)<g0E@SW@h4oSAzS|f2qVtS>B9lb5qR3QoLzUKNDzk4{-aUB
zkIQ^HF+0i0X3XyF+;E7ZAu1rWCfQ%Vf>CLqntDsQ$#`Z0ukS;3b#-+!&eOyC{y|+O
z?d0)!c=6l)=dXd&N<IV2SKi`5T{azSu=&(z#a=XbN1o#<6(@f<>2*oVF<ojqy`TOx
zaMddIy0JI%{IwT<U1?QZ*?s!@{qEeKc*<XR*@eH-tE~QK*X_-Qoq6Ke%T=hno(dfm
z&b%ObdQjwz8;yP#dz)`G*jeii!(n#W;Rcu2&gn{4?Fyae#2dz*SF1>Ou!!chTj>pB
z*H=s#8c5{Ei62Zi_pqEV{+rKj$4>vjvmdjc+2_i8b)(o1)b3^tJH6Y@hw|d!Dt48(
zz0zd2#KTrJ`R4FEbevwQdhd?nFf-C4jhOG5_tJ41-_pDORIc(zr`Tvvnysl9*kkWy
zHO;=Y>ttWT?gtm~bbH0@;`;L6-|u&epU;jp+6>6nWTEWq^pf<`PM`q^91U$ir)km|
z&BMTB8`=K4eU<&pKC?uMW?DHj{Q$Dlg6wdx(XLvUt9DLnAJ=SS7G{ivkhW%F);c-0
z{NQ4GvoUX6khDD;vuEc7ho6xLnQLR_*eGdt9ZZqwj@DzR^lkRd9$B+0sW<pZJ)0@6
z!XQy6rF0hxid<~~1j7rM2zMemcTA-b6a-an=!ZWNI>IyH7|ehicC@cC=F8gq^3-cM
zhKzYaW3t@mVaA#}H8}B2Fk3u=w67^9$MGc;D?qg1Jn;(Mzb8u(K19qCr3W8Os_9B2
zSYfc<ARj$>PIv>$hSGHt)6@*i-)3;Mry1m_Ehx$7U^&90Mmw6LnLD+#ErIUA%)NlD
zwS~p_0v|(Za)X=%XtL%&qb&t^e!~lf5FbJYZnT*Y3%H{qm~AJ*)10hAh#)_mOb8q}
zODx=~k<o6Jf~O-`!^V)K3TU*OSmY*Njj+-n5j-E^YBj-ALDn#Z{3wwh12)=^5==jt
zp^LfiCXlNYo)JvwXiqDA27;FhYrzau$&I$O#>4J8@I$QhdB<lU(Q@P+&)Cli_IN(<
zSTpgWy?o+{l=ec(G)>LhrnlsG??;QM_vpsTcjq_D&6PU=n=ioX-cvdqK!?{@r<8ht
z61&+g5i3bKyX{gWrkj_1LzOF2%EuKpG&iCAeIC9*Hm-r^!d;V6cCN9<lG=&GRRsCD
zfssA93n-g4`+Q_=*<k6zCLUe&3YqwhO<@~}Coe!r-2%bITuM{OZn4a79x8O^zlER7
z_Mia(ZGg@D6{Cc<at9_bQ(J&~DtGWxF^opq%Ac@|VZ6{XKlsFY;<@VwRx4EvOxn#o
z49yVAw9EsL0~p;63fm)JrmE>cNj#xW%$)#AW{As}mgtns-(WBs*Ugm3FLVN^Ud&Qb
zzrl27T4Pcg{LSjJQpvPq-Q@3BYc+*zySn)TJQx1?3<?{zaeX-V2u+*do^?gdPv^5S
zQZO^meo)}B&D~0Hw5bX9gmQ-tfhRNtn_GJocz3e-DwTpa3YtE+uXm7wH~X95W@Xi5
zqT>PFtZeO-(9T_R26paPK|vdvOXWnnA<YH2eaQ<BS}#B*!HP3TR8j(W`&h9-JBpAF
z73;(k<tvsbiAsD0RYk0`L6p=QkYb(Ip@cs8LY5@z{sYTZNeHwWpop=lPl>d^m5QO+
zPD!xq)VzSHJZ<sIQ+;(Mt52;<WQ6eQ1cH@yEs~Oqd#jI>j?6lN(n4Bqyy=@#;s;x<
zg<uLc3wR}?v}-5~I%M*!+A^SE0h3JiI*1ZMa%E*HPl(tR@1SK5W<cDuGYW$ZJZ1Ic
z@atu_{rJ7HCY!&^sUXM059?D?fZ6;2J8BikBFlaQQhvoI4)r+ZK=4*=tWX*OX2Z0x
zLP<oJglXG@l0b%F<+cYUqA(w(O#(uqecl1M-=oyVUmJVlZa)E=Mqe8oeTR)x+34$>
z7gV9OrvdBmfobX81gwL<qIhTs%b0b~%j~OVsgdfkN#z=zCQM!MrJr2!E`!uNb6_3S
zG8(NOo7UmLi3wH@gq7?5%V1qpz3sj)L=a+nJ+2YEWDA~R>#FKi{N0)waHY2~G*j0#
z$Q^YUG`*V|^t3jErq-_$W-&s(bLCD6klPB8?QjL=>D|ghvobiRN;c|Sk*hkJ@~ZHV
z?pRW%ATtVBP+HCY6NC2Hi#Nm?jqB{sK@hF<QN_)LZAWj&$n3c_6mDsxYL;B~e4#C6
zO;d)8F3XSia%H$)YFKC%bHNMNGW%*Zm~g#-W$xj4jf~Ui%+*NlEQUsE#9xw^G-pi2
zMqo{n>%qy8jn9j07a1C^F(23QL0%K9F}fzmpQ@43^6Ch%ZNo+*=JAOYk0hIzc|a3e
z>n+H5P3qy5F6}g46F#r<qZ}q?6O7rR<s)M@ts&WG(~w4N3Y_C9Il*D#H3f3mQFBQ~
z?6r<X=was8xV`eZl^)?YfqTUQ?a(5XVe@M!!V0Cb&o9Eb@#O<mh2G|saeAv^KxT~>
z4b&Ul=HE5AOsw9Jg0*ZDQHE?*LshYPlp3%Z7FoL%s)^PNpjEy(DZ@4A;5t<R=wa{M
zf+kpV09M)Vs?5ov0@ZFO0SK<II!6nx1qN*28Z-f0h{oc{6@E|)v9!w3hy~!9NM9M7
zxCKa{l^lPPVGGZW?NID!;6i?=Y3*7QvJmQ1l$@@TF^g&mwY1LBh($oC73VY)w+P@?
za#T!4ZFzQT`?5#FwggK4lF7})Z7CU|Cug>p3GP%4?n=Bc$(fMF2(psbj%9X|3S?RX
z2H9fJzM&R&iDb00)=LS1ka~kdhEdgovG^@DlnN_(ckNUYLxq&QrLS_x2(D@(c>EnT
zek*`qZr{tqZw2rp-szVCT-OA!@Fg{ZYaksKN--11HPAFVIut15_m1#8Rft^}7fLY`
zvv;5oq94|jIr*sf{6cZ7|AUXNP>q?ueb!;*xMtFvd<w=5YYzOc4l8;kvo-QRI(jIA
z*ysVE7I@mVUE6lrIuKpwk7_Of9=Rr@Bu!J&Hhu9jAixROL^cWJ>kqaewm=$d3;fcR
zrnTgmy=OExf&F;@es>?XgR9`-Y1sVd{Q23p%fZ&Gu+56!hpm!b>F$2A%ABnh&Y0Ow
z81mphJ9;koX5WX(hifZ`2d+2UEmBJsDOICiG5f;}=l(jhnKNVD9`W6>`vrU23tru^
z<%sdR8`z$+WRv{@is#EKCrlsTEl{`PCHJdX-*(Hay>ubvJ6H|Q-qtQ>fgLiwbUi2Z
zdHl%V=$T4yTX!0-!`dRSt8Z&RWR1|bL;sa|!6PA>^{wZ!#pJiMShHB^^`SqEpGu!^
zb?oyuDp}XeW859zu^k4JCZDaB%nJ+MGsa$H2jv3w6?eTbLB3+wqUBotCV7B*Dam%p
zUNLdioUb0()lc?#ZFXAE|2}S)zn<*M*ypS^_Puw;!%C0)%lLt6-<z;aw=&)RBD05-
zi!<g`#|z(MF%ugJ6U$A$RP2`g=W09tGyYj;hY1_4XPP^dr^~R~i5`f4%31vclA2wQ
zAZa^`#W|Q*y56LoP+-Wnv3QQ1xRvTd{Ac|0VM&Y7P>H?mpHEECiWcqpeBk>lm7d1S
zRb#hJ=sJt;+iropeNJD!5x@F+wP3j~U(#MQ*8gz3%3rgruaNjnuera5wNcgI<SN>v
zKSg(_fnvngdC5&O=C$8P=~?wH&T8n36`R0-g{V*sJ+EXWl+saIEx-;-d*f~`{P8O)
zUI!$`mn9;bbRlBw&k~3TJ$*3*+ef6hhL}K0p+^1&1mwwc62Fd!(uV-CstKEiYd-R)
zZZL<Sxdo{FEs-d2rZ76+A#`*_QsXoLar!fNal^R>H+hbNVsw)s0#G*W#<sa&1o<Mw
zjh24gWyPU&0{z+H*9bj)T=?*rfNsqs6q|w^yK~0ezvL#T4yQ_nA5t$fhouO|b5x2s
z<YP!F)Q;r^Fh?n!_2pTBO53f$JaiKe<nV(N!oaLRK^`4%20Jhg08@^4VN<qK*cjd^
zM32lzwqg$KUEc9+!Zn8putB%^74r2syyP|#7c+21Yyr8LPte~F@wn_0b1;+)N(WP_
zW5J&l8_U35x?zCms{|a&@@UNLTrQ2UNKivQwJw2U2h4XB6e$C>0-EEh4fNtPgH`k1
zTBGa+t}dY(iGms7%7`D;O{El)R`ex3PS?$Zt1OU;poXhZ2v$XCcPffiaVI+%?J0L=
z5uR4LAN{?z|7*rA6}wR-SUFy1CtU{^pL;Dg&E?I|y2=qQ2}uodtSgXrPv=Tf({5~u
zNy*NOD2ur@eIdkz%}j*478szN)G@s@Id`^sda1*Wi{LE9G_++nj&3O_8lV(u3D8W6
zW)8e@Zl>Q5`^tR;yK6!{v78#WGK^_LeX-n1gDe_s>SKO<icp|8LBEtKUYMcYx-9Bx
zHY&j0(hrvs6KMv4J3}+GmI1k3m|QK0T=^v?8M|8A>=H^06ti0B>7C75&A8RREVqt|
z5CXy45cGK#uf)D>f;~}~lVRURM_}@hZ==X(t1o8AcP@;4=CuUaJAhv)rGDiHT2$^p
z^vbn)CBHflzjVu`GM06;S$4=@DT;N#V=FUNU`DWRF$9asfdaw0Ccvu=UI}~`cPwP_
zS_XMn8}c-gr$Fz5pl4p#4D?<RpeM(i0D4c~t0YOu?%&3sN9jSt(zJ9Xy?S^+Otmd!
z?COEZ=<vLJ`ueh5IJ}a;gKOOQDWg=PbB!B6+3=CUbFB|gw#;e<&dr4lRhS48Ai6<K
z^}~U?);D-;Nf?ik1vl8)uh)^2QQ-!O2ao3?%m~phAj^zP!2%ijxV=(#q(rKZA*IpL
zl)=>3hbe6_n89;fK<OtcM+xZMqBVeQ`B>XnZ?SV#%ZijlxHTdI)pM2+;d=qb6W6l^
zc)nwb%O|x`Yu^pDMz_#qS{oD*EGDCTg5Cz;31l+WIxxb9;F%Je0fbH7Sbz+dy8_r8
z&msz_+!<($<d{-pcNm+shMQ%2yDva*@pz@6w|jjyi`Q_pxqOcoY1Ir<qH>Ri)Z`?%
z43Qr?h@5jQ|G-GBLoKDke&87*HFGZ0*8}P)Idf1?`GALj6z)oOJ>dKz2is-(`ibWq
z1SCpPei|Id^hi4*jH*YPHh`!S)T2J7j;^R_GwKm%6os@BhDV%H<OseDghzc4PO9Y;
z48IIcTarRbE&al^MBX8gY3Ua@l5i*~P#PM-L=Dg~#SkYdMIa>vL(r1bG>%fx6aMxT
zu*$c8!aA!5he5siZy>Ra@0jl1Dp+%LiuyO`r}J;N$jJX2)lZPi{XdvJ^$xI7YyL$W
ze{DZ1m%z7t{(_z@SLsS({>8MU)uDOTH&sc4fm-<=7|ZnxE^__DH1bu-qu!eg*(>0+
z|90ShxYq+VxaoJBwq>ojKem@q-?vnarznNgN>iGvG;e6tNkO!VgI7m$bEdh70}TJ2
zGtOG*KG|tjN1I*QK_QA;4mys>&YH0p6;Kd}X(F(8gc;#i|BF)8NMBLH#{-z@X<S4h
zFo}!>O^vlRMa=9|Y8!+7_DpnVrnyNGZM;KHA?R+Re^ALT98g-D0Nt+BPXIAf94o>!
zqag!9X$<sWESF&n963H$Ptzjw6s2Q=o~BUXoT=LBMa)zEdA-z`Q7BB|8Q`yhBQqFg
zMR>?0?Gu2Q;mLa@ZqY+y2Fzt2Sv!Tv48$Ze5@d$Sya3ZU9iNy(=?!HX%DiT7P+p{`
zzh$t`v9whO@;M55I$B}|xm&<UQ_B}Wlg!1-ER+c<QFjfxVtKQ<GTdGCTGifFQoy@F
z#31Rpn1TONguO=%6aoGhgF-E7j7kE$82EZ>j8X>v3l;$FdzBRQFQCn5N|0u-zZNig
z6V-17)L#wyh&jfn#QoI(cWNe2hWjgK^iMkV=T|gM5Q?~F;4caRKM<qeg@MN>3{eUE
z!r+{zC%k0PFTn6FgA#@Q0=*)W?OvIIzr1kJofTIgz|w#KgheU|u*5AN9)elw!+$#2
zM-gBNI{vfId#{Mv%Av_2;O`ln`J`bg8Q|f=W5oQB41W*v{9h9!6!acy``LiV41B+U
zV6S&F%jM&SZ!|jO8yG${+9Lzrhp*TlrXMNjeKgV+qari#S4BAfeHlZ*e}zxlsm)P|
z{t6!)L+>iCz_FEVK1RX60-b*E+-U!;0K1Q`QVO`g8Q48xk4og<Opp(tNdFD<_s=?`
z18+e0iT>;y9mx4*A>Wsf1-v;vCunkqkYfS9&ZLVBat=;k9dZ>4at>U6Bm2ubhzA82
z`RSJn1SX&da8Mr@)ba90ZDgni80ufGO$zk@bnj;)9~Mx+9WXJS53y)o!wQwyhj?7q
zLuV~R{X6Mjw^Aw0L!^vz^6747u&;}N{iuhzHYnlc*r5{lwSlA0`PvK_^lQ*OGgmdu
zaC$GG+;$RlzvIDI&t#7E9XC$$t2|@~y@PRgmT;7jzJp^1>1}E=;6DmDk>ihd5s?2d
z@XWN?D8c`Lz|Z-L6&dm$K)NlCyi&M-0M1!<G1m<JO(E!qWATISHu?jx<b;W07IuTX
z70TR|%-Y~?1^#UN4Oq)b?`2Zt+MpHOH03qp)%L=5oTCYBfn8e&e%j!b*l+RjE%E(B
zGUT@)@@bcaLVk-@@x;K$4E@gnyh=PgE8zZ#e!K}aE~RiSpSWu=`XY!=1A1Y7;ZLwT
zpi?9K#6LVQy?1Xyt>^qNQq*4Bsvdr42jR}&En8Ri<u|GAba1lG{~vqgjN7sUpcZ)A
z-JNZ7+C~t^r{Bl|iHDcQmRolk*G=p+%^QsjXIlwKL^_P!Pv4UOgM_$SNxOHKPG&qj
z1pYrQ|65klt_VI}-@M%Li)@hH-rt>n4gdb@I_PI_v2(Uu#Z$ftIh*wywpjAFVE;%E
zahBfj8$NLZcNX%{yNcL+=8L<(1faL{YTq(gthnrLzhr|z_14$o<%7UEyM2G8c*jxT
zE<^t8IJe^OC-$^pG2cGn@#H&;2N%gaiF^L_4d48`$iAOnPX772{(bT3K5(Z=%G?}s
zz|%0|*>IZ7=WNQI-c_0`uEi4}PtuLLdmBdS<UW`<-vZwsKZ^fQY~S|1C(a+iD4c~$
z@le)Zgv<ViaJhM<m%lRGz4Yed=H<f%KIB|PeA53KjL*f*=wZc~*z7RPSg>F`%z`uD
z7yoe=sG)U%8u+iA#k0By4cNg`<Lj6wr7-*twyW#Meyjf2x35wM$2|^?02f=f@UG(X
z^lAIZCMw=VvRH(Ef0-=L#Dh9?#5V1fzGRo6Pkb0S?rj>qi2M0k{IE?V<HJO<eWWA^
z{IEySc7cy}E8UI7hnu60@lY$Vu^F{~EsZN{$tL8{6N_0IO*5zW>*m&Nn1&1TNc%SU
z*XhlY)x(?xA|0`rGrlbD`T3n4`#5J09>VE&RD2Xqo5M%-xv|Z__kR0LnF2Ru^PRXw
z?D04E?rq8NSF6ozl}yr>ZafK7M)b8}Js?I5`yvbUMGh#@_5Mta$Bqb$EM}Hij*bm0
za--r4-{SBQ0%F9l*l}{sZdfLs{~&ghY>cA@NR(Jo?m=0OhZeu#=P-@Jm|Gh`IzW^d
zve%_pD#fS#Ih?PoECe+`qQ$c3Y<C1i-g!=DqV!rF?cLZER&Bg!5q5p?$J%%j(V;|-
z@-Ud?cxdq(-e>GCWz5<L(gC8xP{;Ajp9B*xp58WxTm5aLi4-HM`@?$9AJHS@(SlvF
zM;oK6ixfAi#3u@VB2?VC7Kcj<(n+$4%e!s;^V!UzxDulx$Mx@Lma^NF&7!IJ&vrYO
z92O<E^KG^o?b4QoW+i8=MDhtpIVvbMpEUk?NGnnO24vm$#~2H%-KdqgzCcf%ItQmt
z4IEqS#Hn$gv=iq~_W7HtuW*?4)-G$~>#TiG!rJ)SGsJF5d&}CYHEMc0u-0v>?SS=m
z_Ktfy-Et$0TMm8x2HEqb;d|51O|0~ipMW7&8g9DSlQhT!K9AxjTEU*P>HHNR-Xe;N
zw)u6$pJ_$=F<a9rc*~;u8AGGeNknZzkQ|;96>>y&l&hlILoS2mky7iAd(bh3>kX9*
zk|$2fP<Y{_8jc4}zCGz@Pm&q{N|X+uOb9YTLLU&MfpQBQxgQ{Mh^COsQ8`1Zif0e0
z43<ag+w(|$(nJ!;D=<k4zkrm<N?wpUj$=VmXs)dsN}=^DNDRxV3NaFo$~EcSDc9}K
zSxhg2V}7|valC?DMbqLMMOjdoP=nHTTpm?vg>S4Crj1HH%Jhj1AcvXSq;h1*O{Pkl
z-ek&}OoNseYCFGa9oj$=%cUSm5~o6xkvs#Da`Uii(n9s9tc{-DuFcgko!dm6%)|{K
z5dGXh71eJ0DFb?QskAVybXv>Z`9;&Vks0-*BwbM;l|`yd<r;V^?xcpE^@X`7Qt5A?
zUCAIZtfj0F!(Yn^L6XHR*F>_sLS&gN$wjb^B*;~~N3nY8t$>y#<TCow1m*z?h0;9C
zIHFQ%P>nwM0pu{#pHz-4AIVhd>I;=JVlI@)psnrt<~_I4yyu)nF;4>BqNod_kto*k
z0E*&Q2|!_z)d|x^D#n3gILi_yhE+uX)$;EueQHQYtzc@J)7&76GnVQLCT8gbRm3Zy
zfQpEv6ijhkm<Cg_c9NU6jBBck`h^A3rTglD$YUmSh#qbxf+!*;2g&3-sf!!yBDuJM
zE`^KX@;EMr>tVTAHZP;eQBYxYOR0rvJ*CvgHkDEksorg%Xu!uL=@_7jR<Frt!`#E!
zFsd~R6-HmPYGL#}@FwE42}7xmvnSp}5II9B1<^B<Qqh~vS*TeOJt-<BNs?mSMO`!%
z6>w?%6a|nb&J$_^^o6UIByhD_6w}xBSJt8YzJ)7dxfr5IVqSnSl4k)*XjTPi9XmAp
z4RqlEZ}a<7e-&>ztU0E(d#3gb5MM3lOgz~}^5aR#kF}ECW<6*U+bjhPvFgE{vfz7K
zL)$o*9>(^a*m0rTz(#_lE&Q^%wuMY@v`mGkMIJi&Lt~{24h)X319FkMS8t<m{QYh?
z&jRnqD&cILuaf-#Wuv>~uDG#(X#1OFXmpi%ck2*KW4MFLZ;M!nW>w(I1FF^`)=wnb
zhglhdvJ<d0U}7I)?Tmq)n6fr?JBjxVxc2cK^&#1ZSbtJ@P;>b)v!If*G}Z-Geh6q#
zy^feQur+)3_Qke-?+!7jnFFk~kLZTwl6P1ayQ9m+^{0#FSXhKd;oSexV?W+&@Qxsr
z>eeJpsahN!6|yENOogLdo|>eouSAU!Rf<mIET#I=C{1lCX`Dz_H5!N87l=ktDkBrd
zSxR-OQJVS^bXZ%0YGtbJGcy?~NfB%Z)^SIM9b9#F`0%)7)X!B@avP0UeRbV2RDHb#
z_2Ytjm+WEnl;6UlXje_+qckq1H6a)YM5`hiAEi?TO@Py`d?o^EQ#%u&bSa#Pa1g3y
zBC^IMGXY1tdYK5MO|eXX(ydaa0_svG<1=-yktvy47s!-Qt*c{FsP?5X0ak~)_yo;}
z^a~#F+a$wjGM}?4cY676guVY9NztfOH2fl?uB-xU=zdh}u@d_u#&>`<%qC-f4z$QH
zf0NzM51!1}9e=NDk2PtBbx;+N`~*>Vz$1GSb6!GIfP3(JPY1jxsZ{xKccoMp!!}T&
zrY36IhBX-mv2TM{Tdp(T1_v8rNA<OtZNPVX%k8+bVhx<J*Ko>%Ec%x@LqEU$N!;9V
z7ZZJG#5m5^NsQ}vjpPI_Z$ke&`JtWblhFNSnR$^|eXrhi{`Z@|xwoeS!L@AUKf>{*
zf|q$0#oyxgzQ3vy2&89U6OE!h-z0^pZ~&U_HPJNauh&HcX{Fc6qVAg4MFVe;*Gbg4
z7hWfvqU~K5N~O3l&Z6$N*G1E$v0f`v?dckmp=#RNuN~{Sn6!fnI9;Hh3pz-kiwrz7
z&=jcAJj38{I(PJ5RqyU23|frv(Drq<g?zi3w~W?)GM1LhnvlI$=N9rE)$2Ag?kjj(
z>2@`}jeONA-&V#Gb-%5+#h!qTaEJA{jeIArZ8AcceZ{4$zetHy;jFLXtp=^RDvG6~
zl}f+N+F|CEfV5ou+ZffOy#f4iPJw3vyc{e8&N^V6f^G|@9)B=KC!L6}i^`U8Dd#4P
z(Sb)P%n|D87;4X^8n`e=2c5w%OW1HM!z`?HQo|gYo_@9VY^r$<b98!p=sGY$r#_5f
zHX8)708?8ZVn<G_CT?<0*aV3=Qs7Vt2H+DAa8v*q>*@Ul#2n{s{|57B3=QXQJVCXH
z(8x0Ag<=n=T1*wtaI_vCAi<%Y0qMp>WgxEggKODE`~vN?bPoDN_3prRLex_~cS6*g
zaJ!%ysIYKwwG~=x<IAaK9#|V+WG29Em`7P#wIGdd1lBTbxe>4C7jKgxiC6PWRvWIl
zL7G>)mZyGnv_;tj{f%}h!uk_&Xj)x<hm5Avg>R^+x?k0Wo~-SqU1Vhc(z$$hbVt14
zE?<6=`@kO;^1(y$ii9AywiX2Nv>!Q20~71TQ94(N^B<Q%^<n-!rUiJ~&6#U+qA(PO
zXa7+VgZL4=Y~ArvZ>`%enFv8s1F<A{`S%N~qOF(R?K;PdGsr|d&qF2zUV;bRTKZW{
zx~i*c(vnZ(k@HGk`YmkAZDey6P{l%8S&~??Xx3G(jqUcXHT#oGFv@<U=qcak`wtIk
z^EW*B$I{lP()PL1X=_$_HIXHJq4bPKG-jUMmu~$&ZsFA3pRem5;c$%0o`|U>mWqkU
z>g8W4u!4=UE0W0HYsf|}QavNGlQ3~sy4>8_q`DYYxWwo^5sFroz)CD=B>#@SJ8IUP
zm~W)Fu+Sq$gmdAcsn}58bj9ZU*_P>M8J8RBrjg3J2-_nu%E1Q(*XZLL`(}r*HT&MC
z?Z;Nb!G^Jng@;4p#iE2-K8@5xozs)Jx!k#)DygmMOxcxQnqw#t`<cXy_{_V%jmep^
z+Dr{qe1DmIG#jWx)m-?aB%X?Z$+;$8s7<Dn-(LphB}%PG8<k$Hi;7v_YSS%dCsEqC
z3}~Q>OW8@3&_>23(M%hex=<x;WIAF+wUHUpkm(|WoOIXI#-=91kZ5ERNo}S*t0uUJ
zw7I0Lp(2WDGjgnPBuSvnHD0OHfFxXl!Ba#?!+4p~nASK+B-P35G^gHMZ6D~13=iov
z82r}^`3CFr=UJ%`s^YU{@>dWyPU^>RH{8lC1@c!bCpi;<mySi%<buGQ;Vuj{-XUqd
z7?5T<z7L6W#Rd{rWJefW5f5Q-MFNDu4U;J#?kH2j@Y1AaLh=q_42E~eTOhpSNCgC3
z69#$xq5P%~3oM>`pnyg60|9<`j)EZ`2RInwaYh3nevDxtNV}g<nY98kt3%3zXTlSh
zzP*%>E@N-Lw)rW`USHVc_~PQ#7udUnx9i9RUs-(l0<>7Kxq$rz0a+rl<{9$@c-pm=
zTW{MS6o9pV6kiiRCTX-~>Y{FKwXH9R*vAeE1`0T7|NQ_biyEahWZHuf*ylSp9}b`&
ztNCiT(sPxoyT^y=6aM*qi4yh7vPSYwM3KN!0dkAcEJL5r5E1vpTH+E^5MoAPo=AGK
zvIXr4Wj#~@B`wiV9jV<nHA0uTeBISG$dxvN`Mi^g%V?ze78ueJAefCv!?*;*H~>#T
zu)hn3<KD0`mT?<OC&24aCS7-}2!_;_TmcEpLZJ*=p<lx(re!$g3MiN&m9Z8~iH?=Q
zR9>30(7{zTre-5ZOhdT|B{gW$4j9xM<5jhEWE4HP)r@znveINvKHtLam*rw=J_^Z8
z)Z$X|IK4OJut*xvvoZRQ1{my51_mNet$MowXYP$<uL4s8##fQq8XCf`LJPteNObhs
zv)>QNzUlOy!hMe)5<cthL*nOs{ayJ(f})YaEg)5L0fVv=BV@X+DHz1-fy5k{qNLn7
zbP2kIB?9ZQje)Qx8kvP{^4*~acp$Mw%tl7=BBU>57f6C}7g!0tRN8h_6J%M^3hImH
zM-RC~60-(^K-~!nfjKE$c-9o!U|J*l7d_c{d<t?;^afGWRLpy{1L<o&agLj3V?%ab
z$4>efLbEWoy4L)~Q+(1pPAgCOq9#Bq>#Q&EH$T3B^{C`b1p%ki(-R2EsRI-xWf0&h
z@dF^QK$0DtHgknFMja!Z1yGTr2J8I{D;x!^>o14DK0YDhw<m<PV1e!QX7>AO|Fyk;
zL}_X6stFe=tt1!ejUDW)SFd8<yTUt~Gt(p)WOFyV`9X2|kBXDB6~!Hvnqazkj^X(a
z2$!85uAKq)5qR3QT-$cyxDs9Gk78_dd4ybM=#ysBgwAyLi<SX}xZ_)Fk%a#Gk!2vZ
zaY<FidC5wMwYRtGqAFR2&1aXh*B>)+nf0@~?~Cy-@854zW@o#|=I<i^+<)``y5+Zj
zPp`+!vXV4jvCvzkanGHuc_c5HIBckXy?z&?#7i^Iyl8hZ>9hZ_`Rw&;6S%YXgeQmg
zSpUZ7!8)@89uY2ge8E$~^+P{nJWRxnG)8i;a4X<3{iVP0)f~uC6Mr*}gf&cg#?x2M
z#9PeP^8X?u0oW0LBMlgdm}MgMqs?Jhqr6OnVvw6hUZ{-bPJ(##Z1oD0z4_wF-<u$_
z7yy#bQ3+(gTs2qHFBC}Rg?!x>!!9tkQ5nTXqgWRYe&#Rzz!$s2{j5??@UxHx(s8ml
zJP%|a70GtFhXGJ}lJ5hf&z!|B;Z`p<O}rH>3ATGz$~+W8eiw5twrSKUkgMeE0oGUm
zHy^r4JzxB@{LNS5;CRb;8?CeR(Hg|HMyn`%#G=?a$}~&@h17UQEwL*1<0COfImDfp
z@~ATW59Go!-Gv_j5@N)ZTUP?BC*#47o_H#+E@BiwOFZ#(K(m}x9A$!e>1G?sg#tZp
zpvK7=h(y^>5JTOU{4d?r<$P#e6uy{$h98sv#bgfk0_>Qf8X}iZ?0}IPz~7T%u~Q4R
zbF&+IqvypS$e8=GjRntF01-d)D4T<>p>l~@HinCMp)URyHo0Qw;*TcM({7@1y7?>;
z<&4Ez@u?Jp2QT%#{TlljB)LtUd-(&!a5~q;IGMEaix(;9fAb*WX~Fh9zMA~}_4Xya
z|ITFCrQBYH$w;OF;d{aLOOL<kpmz#d`N|Z)%VYADr^2~O<4|3$63sYGz1_9*C_g+9
zn3I&l_HL<`yCO}wck1Uy%7T%GiL83W0ZQG*ec-QnF+gXUhDq0P*&CTeS3w*dZdH=o
z<E0NwQE{nzseY>8jo@p(+-^|d_G2jAtNil(Hyv=jC~??_Yqywi1y`N&GG3<>u41Ih
zRg|k|Fl84EjwhE{12ybkq}&VJL==d>Q~0Eyatm+%D~-2FIj8^*WtzDfw{Ko%VkQ7C
z)jRd`RaIn?HwaYuBpZo%D*xe$I33ApkJ+)sf>=L#5%<uGOhHyVPBK?|i+CD+-3H?<
z^Ec7cwRI701Lmo}N?hpj<{0j>Sb@A*hgf#80UM}_Nu=jG8L~sL3sZeB8lJW)PQtPg
zxpO(Sc5=Y>D_Tnt^>~+E;cZ@7opbLN#8yk^-oDOlnl*H8&#VbU<#)-Ji!IAT<@n6H
zLd!7{z$)%EBr?^NC+tv*k&>kKfF~&BG77^FJcDKJDKr)bd43UiP`(8+b-A$ATFc7n
zV!^A+x6fN$EK0^#b*3rJSlEnTOvao)a@i)IRXFPRyK1Se6gch3dSh%Z$S1L~tl@Kk
zo}`@7^8Qb4p=^_YQ*v5wLeSA@EP|X%0$076AkbV<B-MAG$ZXeCQ92vJG*f~r3{_XK
z_E#iN_<~+Ot4%tA;{POy;e(%D<{QW)j$0DPNOIh5mjQ9EzLH2RTe8e~{)}KH;Kiqr
zX-04_ligwOn$h%>HY7=6{vp+a1{Z_X+>vNZZU*ywBk>qr4JMis>u8L-!EE<5HnTIp
zRGl~M(?~8(m6EE*bPpSk6&0a=E0?S%RG2!dTo34~s2;kCy2ufW4dAn?npRKO+RA7s
z%<3`HQiexZEXxnpNXcwPYB!JFIU0XWDPznc;2?Y?wY54SFvl~&A`aOU0kuv(HZf?5
zkmOSJa72<sR2^!6l0*>`yvk|iPBCSss=Y8tNkT2Wbw-EfBvhNIC5WWtg%s&V--5Ng
zP_=x`4;qoQq*SZuTo_i8QkBg3E72+$xidETF)T+=XHDm1FwK@qqqBcYnkM6@LlPw8
zyi%3u><=q>rF7ke67fV5@<w1V>?1W3ypz+hX@jSkXGgV&&gig3c2wWe?IATQ`9o>B
z4MvBB{Gr$dxl7fk$L_qzQdyzW`PiK|S=Ige6Egf6u8KG7+7uhxZPoKhyC%iP*?+`p
zXM1RdNA_K{J&=})e&e3Un4i7@k71lIC<0Rp0ioYw(akLcL@~osU|I-><c_36+d@DT
zbF>azfe-O4NK&+wH$?G3qR<w^5XBD?g|<?KC_2ya>Mkm2*TLoZb25m7J`7!r4qaMz
zNNK(FaHd-cwc-Jn*1_t*p`1l&*bQ!}Ey1TR^QIc)$^yTNXgAdWeAgyLqqa4HC|oRs
zv1fo723Q7D&j1mOXc^wvGeA5O{231OvpR_6igHi{^{ftJx*;$jo}xiCou_-{=9P5s
z8q$6F_6cN18=jD%PoNwZNL|`@v1z{+g6%S+yCfwQZBGi>e2tDsY_|w8J(9#|&zwLM
zujmYEI?DhtyyGL$bd~|4_=Be~o@D?y`dvo)(bX%l*Z-72KMFqKLdW^BoY%#9AN`E9
zIV#%4dmr1p7tL<z<UFo*A9QK<LkUo^#Nbn`URym+7}2&rCKa9S2eea$wJx-s<%iuL
z1wGbImFXH140Ns_v{{brug)w(QpZ)=f9O`gNylZ5MX=u*bzX3(5};!65z-Kqf<<SC
z5y=jvMyH(}FdYMOHxpP47wD{OJ{{kbbsx~4WW)zO>0got!vXvz5kE)-sPp$tG(Smm
zrPl#Y)=!!i+!_BSHNQw|Fp~yq(qs~cmPwq-K3FA}Xx9$sbKW8_yrSliUQrvb*B`H_
zdFyrc6*XL9>$CbseY?bl$ZJE>JEK5GL!P(mvlEw-lwjh=ZVooUc05P*x77Njw@BM4
zsK2GwXQeH`c6aV|TF}*-j7n5`qy@S3G^3reW#>hUs>&;pmMy-%#8kH|Nz+t%BGYb~
zR_19s7rxbZpqQp<g+Co!-;8gkWR12<t-xzX$J>2Xi)q?8dSkG<^VCknBbM!B@#vPQ
zT74t7BY>4^LunI_J)O=FPvo!BF(LlOB3ArUhxm*{JXjCL`f2=T7_{vz_wZT%wPV~1
z<qdSsF;L}QjpaY_gE`cthykt-c-rk-TX&+$5?<#Y*<2JJ#bCz0GH!QFW-{~AtHsuI
z!Yxf>lJo0Nb%RMzL=?v(Ywd>s0$o+#SJhS3K=AEoym}amL1GNwEn+|4_51{zFKHyG
zPTz#Q!d}_+4ZZm`a{Cyem`5HCh{q!hp}XjrhEu^Q3C6<FF*3fKao+^$kT|B{924Ik
zjg_=+GP%F&|0X~G8DTwn4^byhLr<hc(78Dwj3@Fw2i;&zyc>7#F<t*Qg_La$q97oy
zE6@A~U$*(SLpU9VeZFid20bQ1pAb<rU;CT4*7jCWZw(ps=k3K{5Ft3~jA;UwzEeTk
ziepX$F_kmgjG*^}a7Mz`MiYIDA)1sMeh@#UZN{OYYZ_9{JeU@b(Hu%d8qjvT#&BWN
zRsc-Upm(3pJ5F00S5Pq?5rT5@IHk+&XzC6kKMJ)LAhDL&+(;0*VGAl)K(FYcrEd8I
zqq^A%;UsXPG~6g9dVfA|7n+}sl+y{PbLPQ)ZS{_y2bi^vw2N^|2IaYb<^1~n`d2W$
z$A%YiDpM7=$ehHmPmJW5#l{pihe6kzUHJm8Y~%}9p1Vx=-39Yu-yN!5KF&cCY$iVQ
zvYU+&Y|6<|4XWLT4V$Hcy2I-ZzP&;4*TIgCusZ|rx_MUcx49#i!w3C|{QcZDzhM*3
zN1nc-p8kV+^{{}~SUU`twHKiwIF~I$a8}SV+l?05Y>k50Z=v1x9Vbk*%<x16!kEIQ
zU~|&N6{dkTU0kqlZ&vII$xYJpBHyQ;K-!Q;flPixL|n<Ul{nesy7mGtVz$njRj6b>
zb=_@Tmxu!{|HL2VK@Ui*e<xXObhKxz|Ch!3@4Q&<Ms2fDL`tYNf+MM0k+4?rtE9ew
zS;jObq3ezZ<5hViXyUyW6P~beiPQnbGr}oegqZMU2g1YX<Mz<1&Vw16>KAaL?D$|z
z(Xjen#)IxNIaGhd-5VyR@*z>i#w&xC#O5>sBJo$Lk{kW$Lb*9Kj4I|*@0`G#H+;bS
z*%9|;{xvD*5l5OUci(A}kR^2?782}eKjH5lqb@MxMM2Dbiq+jRH~zw(JX9ubodxk9
zaI;lC1(3EgwY)S+Ek8a}3o^=bi*=IRGHM^a>VnlE#YBgtn3s#D=+L05NHo^@;W<~h
z?xb=wf-7glfmuhl;jdSgb;g6-+m2*JhFSqIWJAYz{c5*d47(~;W*@O)SCeTiz*95g
zJ^vr(RBva>S~W>oTIWm3vj1Gl8n=|=#(7H|mbX@y&(opdRgt`AXT#WqH6WGGYK!2y
zRGqFd%lt--!QFXg*%fXRvyJE0(_wSVzf^V(4W)`1<((UuGs3lIk)xS7+f>bibF~9f
zzm7NBn$rFt7nDoM+bPrCY%h!ncFb{cJcvv1XNU1c(*B0cI%&f;EN$3~Qa5>@9_pUJ
zLo?;2N)HjqE!kxB7c^||MMAGs!`5;1`M-Rgj!%fuBBKXnN9$DCkyO<VduLS+Pqtj2
zl~rYOf~wqcjA6^jRToHu!t5VXm?8SY%O&XGrFy5dI3FEAP7mk9ACfCv@kV7W1mHkL
zM2aoUQ=eupiXpz0aC4%z>bT>~K83&36b{M9{CIhjef6|gflOWXq#KahhCY2`GoMNY
z@>7dUmXcE@!dg*2BZ39J85OUThWVZQ$kq#F*BsO%0{fIC0!Jam0<5b$aLcvz23jPT
zu_b7#xV=E)ddflF^J|aMGLsabdHqpw6yufr7;(<L+M{ybGmS~@VMa{pGfvntBqHUs
z_Bb=A1J3R9S8-rB8wg1YoV}<Hk>W^e%?YHsEZfzGX&1Gsj8%8A_Qmyw1J+PBTB$r@
z_}Z`8`~M>Zm?h9L@foSjo|gM85rj9DkqwRbmW+qe%D3+owK<xrFLN9XTj~&skC}#?
zyq;KS9zY~~-!0gXb+}Tp>U%~?vMuYI{F(F}j-L>AQAZU&DWrlDlV!%$uwNzq?edYy
zPCB?D2D5-6#ZP(}h8=op!x-&oJ)qqPp+pHoE+G`wUjAhk>fDEO=)2@yt|1%qYD?6h
zyl?B_V%{hge1L4Kjz(q8yoUh6Xg8Jp{ak|YH|Yd6%cw->rqZ5Lf1$o6FA%9U!>iTB
ztDPIKCGpDUr~p@Q23M~OS3fsgbDGAK7qA*lLpg&gRVk>bqgKXWVH#(LIp9PTU1~Os
z;QcVobHh{%FCG?fcAJLoew<FtHHf*rd@6%Crwfw$qIZ?=^WV9$!STvqiIvv}G)NN>
z1)rJxPYLhMSrYpsZy9PYG<V3~Rmj~Y4%q%I(EjMIt-DCUNbF+6{g7Or)aRz>!?MpD
zsI5BA)qFdt8hsH6^NP;Wr98@2{B>FtUJ%>hA;F06zG(C%*V44rG77Dhz>t8-3J7lA
zFm~5Db8B{-T=>T9Ams{Fq#yK|Dl}=^lVo<R^v_3FyF`1(iZ-u#l*YTn&W{#5k^j=L
zODsKBZ0|-smLvWy!D0O;j4-~k#ucX#bzvfvKmG%?yt1jU$^KTbpHAvVl#8PUfAQ*;
zxu=u5VQyOMHPB)HyuGdV=pWHpt#Y;JyV46*woliQfl-|8TLE`Uxf>z(cC6^lOuc3F
zX(g}C{vS-YQmBSylMHy;#adlg;yM&v_aD*H()JMq9qv`fQM}`wm#okpuw!X!8dT=j
z-y}r=Y1)&5ix*d6$l2NFW1o|B$nEvn^~*KC=4VB(xVfM7f6<>m#-v-UQU~60=I1O<
zd7REIcR^QEAg_$(1d;+e1CRVg@aubO<&-iY1!v2UZy9*dSfHG5EL`(Jj|6@3RXkmC
zD3>_rE1w2W6E7)<`@GCJ1Uw@=dxEs^C)q?jY`*FY{142cLogc`umSN$;;S>7BrQ>=
z8&nIAYB>`23ix9d9S7XOg9j3Ovdj}W9M;vq`g2Hu#bNP@cW1(A%m>*rjSdGN7&yEm
zN#CjTJRJDU6!;c$pho~68b<koWy}0<*pVUZjnIPha9DyA51;s=l;~w#v~@9U2K`Lc
zFRAt!qpQPFLqiY$e2kA#zL7y9TN3v?W0zTWgp>k9i9QbM%+SqOl!uRp!zQMBai11+
zc7*sY4EYX{EPOf~wlIVprxCmz1p9KO+HVD9PPvHSz$I4qMm+Y}e7S&>7hYVDG)tk~
zYG15|Mb202<y{?PX~4@VD@wwis3U3U4(8I1Wy^m8@(4)|Y;CKDw&h4uR;RSVpx`Yn
z9Ag)5X=9N^VhUU((9TRS2TtNhxJIq7UTbIh`%23yVW)AL<uywhMqd2Ny<r!<)VAVO
z%tS<XuY!DJu)+FF49C^$ADT+%wk8TY87V?xlZrwc49O9Y+>3H7e6J%Enyx7AGG)dk
z;8TA%`0v;2-;29@;)EFkFU-;xVB9%p*+TvzevL0K;qu#f)E8Blvn(VF8nVoG$1>qY
z&P@Dp;2a%UEO3achy{0$%>Jdx5)f#viu_pNS#If~?`#M&x=i?vS-W41TFK|J@JG+5
z#lPUE#lJi)zH<kQ_@p~<&$1*-PrZe-_=-66A|Y8XP}cpBa*C{bx#N!feR=FGD_#%d
ziv|wt1)@?EZ$Ca&V@0J4ytOOdKfl|@^jxQuG3CV`DI2(ZqyDPrMqAsX+?Fw8_tycf
zy}z?<%NnXL$7#Ogt+v0mx=UcsY)c~Q{;9%cF^94pcw~*ggNRKlF^qP`!qk3R>40@p
zY^&VTfNZM7HLDVr1oG$iX)FY!nap;XxQ%7foh`UKgz0iFpSBF+X3}n_pUx8)Fd9Aq
zhv?Jzq8um=F}mEVN7_z4uR1jC($CTj-QBs6$w+!bZJZL_REGDZ<=0__qA5Tdta7D$
zrv9qucf5a$xY>cai{g(^#DA*ehh}<Z#Izl<o;PXAhjqQp&mX$K>G!9e`;E9X5eIsA
zn!Q2P9b|8s;}l;xlT{9*vZ5-wqXp#ax6u_|lQnSSZKy++x}HDvMr6D2?hBYOICX4P
zMyvjg-^kasKVNpgQMz30v<s`IJZ*ShOSNKxk@YHB2p74mY97;M^ek*PAn*4RgecUt
z6U(5TR10mphGJVrqPsN+;-uBK%^DVJim68G8i{xv6RlL&W9+lpy?!y^;+VBwl-KmE
zTr)HTD?OHH<U#j`yjC%CU0_6}7C_J9i)Ap7GPplB+wHERo3zKqYY$FdTT0OkA@in#
ztwz_oc*@=&P9yc9J+<y1Jhhf{t%j)M;gM^_U1vWq2pUe@bx7#s-;P*a-a7_8x1+A0
z7>y5Wx6ahSU6}5nbJlM>PQAuz09>4mucxxz8o~*=ix<03!KsV6i;p>~5Zk4JhwD)|
z?`gY~PpYq7r8|)41?h&JGvu~Q*Z&vnXh^%q#IHp9d=jk23XF1mUm|dMUVE?S>~``a
zzYyz@uiHa;b6fpttR8oB-RPKIH#)?ZKi@k(HeNP5jhBtu8p9Q`f6(Ey75FAU4+Gcb
zEJm7p)n`?)BdtDT<+(>H+G9I0rr0uHC#K3t6K_q8)E=QD+Ju-IQu(MC6FMQ54#Hnr
zCZQpd?bmT8WFq|4QqvHlnUo?!cQwUC>$1quWt(?1CJqBbI*7n%8G&gM?7!v1k(wEj
zYIL2J(%jU22ufP81fSfP=|z*^DGCK6o*IDM1fWsUG$70b1fw<@9BzWsT%sD37b7;9
zviS`3KSi-JvFZoO0(jb`lUq}RFc5{ue?)+Ad2BmYc__Au+VN#4(zV4xK(a7Xf4vFR
zY3pSM>q}+>bIx~?-N0=;iQA=O5K~MO<*E67GI|n^iwGRGlWrww6I693DU<7%#vw3%
zg%ay59o6fmKuNvQo$dk=ZWBLOz~7pZFr*Tw+@e%LQYKw-_+*Wr;R5z_KAdicb5U#P
z237Wst1nU1zp}Kyq!2{4Ux`}j5R91uA(I+BSj2l#fh543X|OObYmRUZ^i*3mG+b-5
zqrl=tEB_SR_KxIvrsxb0$3F6qqCjXx-rzu|lfhwDR~<zCynmN{Hn$s@sJC8Em(HuW
z*?RmMxXAM|by`fF2TaZXu@A1Ig4{d3T<SdsX3dSs!g%z3-!p$k`uk&wv@UgntA>Vw
zJ?O5BSurZY)l6TL;k){McKn$!jEr9&;sXtPZf)s=0l5!&+Pzy{ccMrTJ^PR3OW;ux
zGjUFm%_Ppw?7Z|rZIuZEfi@rW>la#3T4<<habFBc=(^tO>RZ)CL!PD&Zx8H&U8TeH
z@%wD_%lq+dN{sX~v{>{)Lp%18)DPEIybBj>l;7yT`(N(p-R*QTBAON_(SmHfMH1=e
zbL@q`H8L3w$zP;@%lgGE8>QuktB1GyCd;PBSn|NeCUHmEl|SDxsts}=O16}FgEPmc
z19G+r!9q%!Y&dHg(!^h+nVlhVz7)S{_SSo$<b6XEN)~~)OX*<jl(rzg)^zS{vY|mt
zlfl@=47OkB=X;ba%VF*ObqRmuNNqpT4>K324UMwvVrV+-bhlM;x0%L)&&VoDh`)`4
z!iEj7q3N^Fm>vx2*{ri&GLKe%x+%=K5Hs4HzoN|F(rdahLi%2eCGCM{-e-O`V~=gx
z?yo|b71kQdzB<W#=WSD!@%kbPQ+9>{BPd9xWV>T37OV;dRU5-94OJuc1*>4iJ@|tU
zmd?F4pkWs3#7ov4cj^QB5z_^u%bZ^}YD3e5b%2TtVoF~KmlF6OoewHB1T(CnSm0r{
zfTO0=n!5<1Fw>r8<{^^O^)~xi82p)K0;$cX=gg{IvC4ndv>QLj<|qGaYH>kx{IsHM
zJy_*hms>rG-p|~idGqOb?#s*$QewUCB1T;n5$>_{so9@JNIlRr3zJ+>xV$>EXvRk!
z$B(bc`9K1zi@+QfmmsQ_N7IXC{Fn>L<>Aac@o=nhv<sL21K^Kb-5wLV^cNm*`r3p~
zKMLO-`ek%I{`c4W*X{FnVlJYD+Dp3fb^)`mi=V~srG06TmEv$rlKIV9g=O(YZ$0u)
ze%)!yi4#9$rLk)Gc6qeHIc;bM-w5Ac@DZB9!KTRK#PLcbIu*<k70hbV#ePgxG*Dvd
zq}m!B)(-c8B>YT2GdpC7=d;wwuRRte&a}8NL;Argppan9RNUav=xymgUa;dqG<Kzv
z+HSZyr;V1+nOSIr+T=uL)d)2Ps(n&kpTkLWB*;dFY%S@0x8~p7BT_|g3=(6tW!7~*
zJijWzTr^mh7B=II+HiPLQzLacTMbzIk=7Oe<kuzM4U`uT(1Y@V`FugycXIo8e#%f7
zw@{yTa*+G!7R94+=>pkIQEa+ACTH{&g#%-xh*tNXP`o0XcZVa@4I^jNx|6r|MaooG
z2W30dH<~c>CW*KXWy;8R{pMr#F)>%!pIdQG(w}imfA>4qO9s?n6XufRCg7QU2Dn&<
zXW5gPYRgC(F4>v9+AcLTJ=?mN@7!70JUT1adHA#d$#wGRo}&S~@|_&(4?d9ta$aM^
z>81kKVTUw%MPXTZEc<{}5=0>m6{?4BcG8(^$7^P29Po0@Lb0>)?7;q%b9C^iAdYgx
zzZGJXZ{@FepAzNMM?6-oZGeEADFkRYHMuLl<MCkh<d8kq1^FY5vc40F0v%8kxI#)h
zyB^SCo`lu|t^PyS9hL44Fbt7<)`k*6HIwU0{DK?I^7$#6f(Vur59J)8?xUr@@@ayC
zT;tbUH#>Q(_;@%tLpkj47FeCWs<j;!+t|%+V7?bjUNb8tSbziTY&*zsQgpPqhg}CM
zMwmj%Ic<$2;NH<O(#cC686OJy2E<JYY1qhMgp|&b7%}?IZ6`eiA;TG<NA(9u?rYa;
z;Imv?_L0vTYL6-gWZUl4KxVdjFsP+9BL+obcN0+-c?sNpXA@C|!QdFc2A>S+1Azo+
zg-Kw{UpQ&#)^iyUL>JBpFB5d)<|;q-(c?oP6WK_r3whg8HL;B(adH$Lxx{7*K=VTu
z6)Pkby!jzR+#nHQ%?KIV8xjpr$IGBTkWh#^UIJ-pNJwCfCWE`h1}326A;bELr3UMG
z$lyBEv8wR!;)!djP%>E%ku)nJ*;mnI0o)0GPSD~+gchGHwKg5LkR?-X6{{)nu>Yvw
z-_HnqX59H=zi5c_o<u#`yf{R9Q7TYs-n0?kJQoKO>aDFQNvPY<4p>E?ni^EF{jrT)
zSV#Tn3JDv#utd|UQ{;eT5ah7-<7%mcpQsu~*d#f~^E)TGv2B(d?2fUPch#oJh3>Sm
zQ7+wcyGW)@#i1J45hx^^iVQWpM!52&3T~x1dssifYi8?^2g$emHX%}g59^0S*np26
zdF(;Y!kw5r!!6K7G$i$=tpbzA(8_I3w{g(NAvh26Am~t-1M7&Ex4EooexhEeEj;`}
z?p8tRBKDAb^7^7`6GIOv5wabt+GNf_J<n=b!nX^@AP^>Rj#d9!J3x)<;(}C#rl!Dl
zc}dhtPz#_G4SJ4aSB+@<ATM5g%+Hz?h4HB6Wl8?UhJ1}AL;f$le0xv^b4seNa`1(|
z?hB!@pxS`ycyxg+sp$RQxJUqgBk2IjPzllt`V~s-#0PyLG){cjn{|nUVo*jF4+X-V
z^V)~?M#rSRSe7_t2P%NY1|mj!kIe)@dfzSw%VpFlU+;8EWf0)s72wa&{ttz12Igt4
zupbhbeqI*2US<jCf139@1OEEyE*rI<)V4mSokqK4K~sxvWA<rH^3SL8VD{2uo^|8X
zU^$uY*FoL|-N&59$fS7LbRK;i6Xc)EdZb#1?S1hd-=ggsxSRvuA$Z!wU0ZviJlDRy
ze<ZR|4{NP``drp_)V4Eo!WA(pPZ69D+VT7KZxTR30f{c+95`0xzSkyM*{|4>r}5W)
zXoatDv%BBu<HwV&hdbZeA`;^En2u?`ZJRXs#J({IsQ$qI{6D++p`Lii4k<~VGw|On
zF`xVe{ww#~()F-0WG{!uo<qYP)6<7d@i2SLvbENf;_ZDz!ho2VkU-$whpXXF{Xg{b
zX_^1nCi1+%u^5-@udJ!~@1ftlhGc@X0G+b{+ADwGkCsbJwAj!##bo39h~kAXLDz26
zoiW>Oaq?&E0rNiCY)}Ji2BMT`tuYSSXU~`-MYIb<kvVj+w@^sfc}K)WK2=1?>wxjV
zUKH`U6mL3jA)XNoTY3zK)t#pVQfqA^-=Ps_)>^Oo_sQ4Y74|W4olp~{n4zFeKZyLi
zpY^-N;sHXSqB^dBVMl+*PPT~m?%0bvk0@3~8`2FmrtAfX@$+ub|MmO(-_7*RHk^Q9
zE7(#u@U0i|U#VQ?Jot+jdO!GkQZOH`6^%dOe!Gt&Jo@M9;g0=cO9IE<Acq8PO`CCF
zvrvoCrb#06X@PxuHA5PHwblgFi1@txf`J-vX!;gWt^JDV1ha3j?*QUj43?D?IKU1A
zgjJm*ez@KO4zVj5A_fZx$<P2xWePd<Tu5(o$XT@YfFO?}Eet4+R{9;;0K&z=4-T)#
z@g7MKZGk{}Q*J!57a%<5>$Sn0y}lA}mKGiscs1jhN8bVV+zpeLNVEk&QY5332QS3R
zTfZ&FpX|Ae99rv*jdw`Mo92Y8=LNwhT4S_G^nXU=6BAh8_Fbr!jw+>l_@k6==qsgr
zR9jRY)%xyfsg_Qy??!5UH&W}nv0Ck3h)Oy>{#487tK~bicWU?s?w4A=fU4!&DUB`q
zFi=|`Mp&&qp98h^;W<*P-)l5i$~VCqrF_%1r<hM|eV8it-;C^(^1X#hn|I?bqJdJv
zKJr&e30aHOR!yiYCFJ95wS<1OQA_wo?P$|@+H94^QDYPYTcw20!I#=X^FkE+@P()y
zyBJfvan%x1q*lYs`nM87lP^d9QOoEnXJo&3lrr`Sa<F1Xj6Rhz-Xo%R=w#jpUf?Tc
z+-#6yMn6<+Rf4G6vN~|T6h{EDLZy^ZtPm+?q|RC`W8^9JBl{YwjR3Ei9Xx6nCwQaS
zs?)WnoRO$zjONN2w^(WC(VV&7LTx0U5#*|Et=@cBaUbAgjnyt|Ge*}_%lIp^A5{sX
z#YO>&SB5OneN;MAWj*|*m?$l-*5r<m;9D)F*fgk=k`2tM>nNrqk)t%&S#N%bmP#W*
zhmTx8)sE{rVkD`yb?yxC5=EX;J-cjdM_oTs>d@{GQRNY#`y;|3RoqZ_r`TJno<Hkx
z(s$%3aq3|gUx)wJ^;bGU-^z%^DT{<y)5PvZn?xRNcoW_@t)x2sOFLWQej$pjSN6@&
zzZN=nrS7>@AGs6`&0=UzJ|JL+0rrEygF!T1zCruy!vh(_uIDZ>bvL*>O5R+78&bR-
z->2I14Y%=6?M1rdwl!nl{j_hh5jQ8Ex#Ckx#{w?6fEBVB(=GD*-!_aG*>)|hpKWng
z$zEfRjY3;dQ#_qdy!#HwqIF(f01<xf<3Np5G3>X$>~37f|I*~ZCGvNzzSgn9go&$C
zJ#j4C6hJXFlcNVD$01B4Zebs2Et|)*BHA@1?Y`#cx%Y9PNPrE90AbtClt@mi+4-&L
zr_2rv^S~}@6cZ8hP2;Hy9*hi6c2SQYmLcvJG)9eV_GSHGTO^4ABgy=%Bt0QWd@{5#
zF`Tnvq)QNuiLf{?f;h6;pa}S^2)rAE3G$$Yxb*1zB`nvReUCq{e`IHWd{P}HKOLv@
z6M^a|vj>x4NY9)Yu5+eVl_aU3^}D&NmNXrxuxg>6nDr0n&<l`aL&xbkMre*bwZ!`~
zT{oe9A-ABtGS|W7y!;&ZEqDhz|0cZ85xoiT1TSyG%NKKRz$^B0--KACA-V-I-^6+o
zV!qY$7R2#p!P_u@BljltINn%yBW9kT=QhlKcoS<U>(Do$j+aeuLLIMV-hw(^>$?T_
zekJS{<cGy6wd{vXSen>8bMK)jyqOG!NWzs)M}~^UI9(UHmS08YsTxezt{&B(I85DL
zPZJNbgRSxAzii>)%)SeV2bF>A1XbsF07<h>fK3i8b^*T3|HBT2gBJ54U}y%cK|3PD
zA0=>z-8g69HF=7TA$uJ1%G^wam`^_Y1{iaUzrZlBU(Y{*yLv&t5OGQ&RX$9q0b#Nz
z9G_!=0!*itVc<?OxI*F@kbpb|tJZpVLwD{nN9{myHIc(F9HR|hfCB3=@SE>LLh}h&
zt;Hw%lMw+Zt`Iry@<QTjT;5?o_#t9g;0f|qc*Hl2grLA}E^)fy5FU9(c6~2!K0%R9
zR_E5iViu8kuyn&UBzRkUj0XfU#~oQk8w?iEA#y980;Xxi0TJVs4?skVEB&+tg?z@F
zIR>?4hf6ua6duzB#q0`9;2<MF0lSum#Gmn8DKsj0U=gU|cqBNgII07VDvskoq4FI{
zT8pPt6@9rjJZ^k40u)zcjV*Rp{&ksP3xIW=cw}!3P-tThEt(i$Z1$Si<QW=UjNdsy
zJSW}^HoUz}Q8>g2D{+P$7W^PMyf>{(=?1rp0bOUzq0hQYkcb_jIIK|x=359_3er0z
zAThgXlz;{0fPMrEI>8Qh;ihE-Xs?knFHl8|1xFPJjzLkUtmY#c5zu1Q+s7*?RGv9q
zYl$X-LBkD|1g@Ek#-PVx9K78VX(H$vhwlI5#Sv2oNu{^${FR53LzB&N8IWCgenpE3
z+0j1D1P=<_z6*izC@kK?A6UGh4~zE*?2kua`+-d%>@%Xn;*EgqHv+cb7+Ag+0*WWL
zg2Dp&z<^g>{!;|V(_Fy<1{4@@2U|;c@@`l_xH-E+`fXsq2w1|`Xbua=cj*EHZeRg<
z0xDoY;Bq*HcFK(GU;*KVzS+&rpoly(H7p`eJq?bi!y@wJ(ZGms1N}_;XIMl&%K?iB
zxGa+0+zyJ!Q!qm#0{6t?o%OJY6amW!xLYfm=NK5$hld1QP|KYv0EHB}hG8M&6i~2`
z;!p!H<W;u`7em4=xnvXi!a|CSy|9pwbHLdQxWJG+#VstP$S4a7DN@G5LW-QQ(2xWi
zl4o^=g%n9tfguTa2!>ph$mThPhJ@Q4k<C;J3YnxLg~d$Hc!6TZOWm-TakfxkOmTt%
z7Be}x28;=~Z6$xo4H7d=j|mH!o{575?E>#NO;Fj8oX>p18epFn6Bc!U+z%2pbB+%N
z_HZ~ZUf*TELmPN((eCvDyE~bKh3Rp+0odeb$*DzX@Z;l%;P~-DBIeL$EN=+oyb`={
z9k_AE0l#}FHP6AqUAkcVPxc($WSJh^_`SXDp^yR7Y94@#^T=L<jPYk%-R<Rtd<|Y-
zUdY$rh2n*LBgK3TUhP)I*XX^}g@jFBj9Wz5?8TggjE!EhSjgDurH4g~@%*M*%4TnO
zE2M1p>a!BcCT}7uq-^%Gr9#SPZ?Gw%Z2BIOLe7RSA}Qo-`1Xn-P6g@sV_MKe>N!Z*
zE*}Hd6?e>Z#T_MGaYyNhkMGJ-N~ogw(bYFUy3(sR3n`nuU9gB!Nn4<+zMLgyZRXyN
z1p9ofEC<zE4)#3TVV19%%&9b$aho{pi6g%5|I40axW+wuVSlzoE_yb|#ty}c2llUT
zNQrie5d*}zwp(^A(=iUuvC(D5<`c0z8GO&~y&`(JyXrnPhPy86ea<>wXq$hcfZ`qv
zY*94A?ko^RAUu53>d()!ii8n)+N1Ol*K-@SHSRKvXVEskL$4XqLWSSmaDsWRaqg|_
zx$9DQ?OYC!3yINz7**CtiLC#fqa5$OJV$+RPCeHF@aFtd#d4PjRA}W~O0d5kpaOhx
zF?gEzzXBXz3Z6;nUkv|s3aho^+gO&ahs96MwgP6p70_CTM(Z*F%UNUR(~kDh^&%K!
z8IaG*o(#9hzvxNJiAWfbi=OSep^Z0Nx)V=Vv_r-U(_`aQ{M>SV9}}4eeEe<4g<viu
zJNG~jExwTNV4GhzVP{NG{!F_ahX57{WT<qVyT%Td8Fg%T<p=!o2-{~Za~LC>w|=K+
zoEN`d1EI&S0^;Ynm^dkqvpg4<=w%ed&Hli?8ow)ArMe_V2;xC5W?4V2;{^T}Ce#>`
zU?YBQv0w9}JjRlJQjWeia650{F)d-zgKcOmNU${q{Dr?u(Tnig!8UUxk737&BFD+~
zD}p>5EYCn?Tf{7ubaPn6!wsI3IW8X;NPOIg8+M05eYoBNT<9b`XbU%Vf{36M?*K8v
zBc}>CPg!M-JVf0u*3nMm2@PU+(YGxvg{D*~G({=oxq&jJu!Nv2RF@UQ<%XIAJdalV
zT?V<1A3E0#1`<APR7SXB!{`N<PLvyDAHqz1ZM0_@^rXH^5sa${lEGIU@#Ei`_u^H&
zuf=ez0`K7_cf?63@gk!{wUx^Cc#(C*$d%LLRYr?*hAP+NRn{M3d$N=!KV<z;ZmM!U
ze#q#-!Zm%73MAU30>6#_WQ}xa+>7y@&6X!(pf2(r{;+53P!xK+$`$37n#fp+H%~mh
zf|RYMGKy6CqFjrqY`GQrB&F1t$*6J0Q00ouWE9cbT$40iwUjn*vZbraVCCw($(AlY
zF(jqPyNn{W3|6kqyKE`T%*WJJ=R>xXRT!*Xkq;R~j{8D2HTfx9!m5l_uF6kYpJZk{
zYijaKMw7GFDp%!~RNXgHT`us=Z&}||8LeEQ-?Ftoy_UYVB9LQ|eH)q^jc8{_BdsaL
z+j}w7QaLJS8WX%^I`CKVK0{G&SW@it%LXUymQ>`dSKLa=LN!}aSvU-X>y?GJCL1~{
zN?W-eZCREIJ<3`7b*+_N)gfi6$GSS4K`)mdvR=kr!d#_n*RC;nKVMc;^nUH$zAoR<
z*9W!H&y3;A2!{0sE9XYoWfcEN=}<BFEhG3>N{7l(X&J?+HbwP-u?&A)8~@xetBm1Q
z%1D(%pfZa31K)aslQN!}l(DKt4P^}PQpT$6$(K?5tW9ygk6p&`TS|?}&Tkn7WH3*Q
zb}pRjvVAO>wn&$1D-PA}vbMs|>Q|7OJ@^v07`jvysp?vnF_=;eRUNi62I&5~h-ta9
zWz_3Q^$xd`$#kWR+J)=7%{B?032Co<fX*4sJYOLX`>o0d7xB^A^aySGcZQ;#<#N5A
z3+=Y9Rg%wjrb|k(1sx!HbC&am1>ld;0BO}54V<qb@(iZ~+=5QSWiIbPhZfNT$a$qB
z)v_G=D3>YJg;eO!-^gjym8z8cZv15m^`Jc@!fQ^So>X|wbciq0=&f#BQ)^+UsJ;29
zTUYBal-AcO#~4zMG3@=2GUu4;cxKdI;_nRHaO<I6#zc0VjV6}85A=M)cge1e3ao7D
z$$(v2a%z@S%RU;RU&e+&yAem-*qon{R0X_z`)Wcrhi-{Qg1xLl^BNtA8hy!<p2S?r
zT$x#p%gp6Kn~M(ta^`YsE0mp6xlEhId2OzRuj!k7+`Wu$SrsC`evRXO%9;D`(z()o
z3`;jyvA4vEcY3lX<ly<vV`J!gxC!)3Dp@)B)w%9)XB^OV?2bHa0<f+RP`_>d?^@8p
zpztfPSHS^?tnWqGIc>+-#}BC)d-3Mpkdk!Ac?EXH@#WBiLg@bireutkv|scKc-qZc
zYjfH-6rKG?@e}(aB&4MSX%|SF?H7$O7vjaQNOBYY{YtW(K!QO6E3-2hVvNr@($&?~
zkpN9ccYh{#?3()Y$Njwj8~^%ygdDofJRl?|cWmGwZzwJ;D}!f53!G)Jykq<m54rGC
z5O>I5rZD91|3YW-O>07%ZQc2{0DU@#vke$J2PU+y>H7A;`4@lR_}*9K;Uvi;pE43>
zYkwyHoy#m9-t=z<|NMUbmd@^x8|4I?tV}C}<@~^e!YE@Bb&kr(V1-GZZ}21Fr9@g+
z<L15P762QLlhOBBzJbiTy3dwCsAy;Pyfqj1Czx!23_I1bhfl^OZZqQ&V`f^y>1Rvh
z8n<<7nber%=KC=z&5y?vR>n1E<-)keJvBbb-G0e(<01o`t&NM^<jnpI5y!a5kgq_-
zMMi0n7#EpA8k-kk*m!M}&d0Qf*XNMPxXOUw$b4U}^CZtcK_#Qiyb8h0e8eU=BF1a6
z$1N?GAD3BKfbmJ`%?XapkN$lYe?lhzdIa;H-j}n|_%i7aUl<VMG2^>G%;M-1WJnnq
z&olo%qj+UJ1$v_VZ@_qWdN;7bWnx?>;FgU4ncu7iGe}mSVFN-T^b;qg0i{~VNn+-V
zW7Zv;&)N7q>4wmYmyj`UBwo8=43c;SEKVU9*B5WR?T0yT2G6$Y5tMt9&KIX@m~~Dl
z4w>Y`ch@Hmr@Yo9!`}Xp;T6BpF(pM8l1^*ZoukO^8FyMKVt<HJ_NrH4Lis>hSK<PY
zxTlG<QeGfq6lY6#*?~SB#_~1>1y2nY%iXk(Leb(`5(_sk0PgKJz~N@zODOW5%A7&S
zawKaC4d%HlBlPXo)gU;b=%hH>muyVx|6h(?q0d&_6Qnj$8pe><EHRD)?#sn-=vk3n
zyve$%vNC(-Ws$(;qJfs^7m}C7<)WdMXua>bRCI_GCbm@dMq*ma`m#WttP!64KB2na
zV;w27_K-vHvl^#bbb=~6eM0c|%;;dLd7}E-P4)FTGRo5;PI$=_cXYr3Z}<6dR}_7X
z=X+de5ogd2d9@W1_3ACeH$U2-6Rm4O1r!)Mj@+|I_MS!Z_ClzVfdc=7Km^>IMPTQv
z3M{hiNJL#^*)pUPpcJp6B@2$X-m+tgmXO40%y*XxfY)I-{#Yn{B8t-@sUKEY@}ozH
zHYmcBsbe7FE@8oq-bMq%-*Jb>2-U<a2w+{ENF1hVVgQq5tBF~Q`mc#8METal5S*<+
z6H{iGX!PgJ`l(~2gdWC<lAM+V5GHGN(2l!Q2H906RC4MlMlhesM6Xva=H+!=<|Wm{
z$z(t|K}^^ebzIZRM@R}#*YmJg9fcl&0<iiN@nmHwUdyF2Fp#4_<++n)Yi*~%>`^o}
z6;4)MR6ME#mG&Zk(E|`rRtPc6)3+giIORH~hdDp)>8qvjqemIsphoE^(at*Oq8-+1
zXYj#pDRJ(at#_o_UaJ!1I~%2qZrkr$Rw?stU{S8c)p1HGTm4d|*~~XFs*I=*ldY78
zE%g?*m2cO>c<*EJp`jkHLK%41@>O2f<kqSF@0$&sI9MID+lkU5<Y~fUoD83Acxt$}
zEtcF_L*^|-OJtxiI+WS!eXuW1kKRp8iv(}qk*fGZ9(=2xB>8i5Xs$Q3&P8q4q}3l*
z?tQCq{Z5vaRaDoAe^BeVon&TfH{6c8;qc}=`>j?S+a2$(+jy@_m9{zNtL4wAg_iI5
zvOhqWdrR_EJP|*~U&b*0IvVzQVizQjs%6y<#_&@8D$rf=XLsZ~?c=G0>#5I|78O@)
zrhMUy80Fnh5{Q^(kN7@&#6RFGH3{XW`*qJ%o%S3R4H~$jZV=Z}L8Iwr@Y0l?@QB>h
zSSQ01D<WU(4jPcX1+gQp-m<F4HQg8GENf1S4yF3C`hKqYp00UcYkbw#5Jz6sk5sMe
zl5&UlAq-t{z6;0bEZP<~N57pB-1BVQxQk(IEw_^{*bn-P@0~EW6!4QPoQqUU(E$g8
zPgO1V@{08zU90D?x`_qGFnHR{oojRA$PR|<{39?1%*SxcFu4bEn=h0x2Amj7Y?Fli
z`eR5klkJhZrIxqYs;${<cJ!!u^|spAW_&$3e>uyd(fB;?WR2|dW_0w+zq=ZYYuR>H
z&y%Ncb)L7I<9a*wgV4)1X_{<S)AP>x%Xwb>pVrt7-`1(OPNP*Gt>)GG(%(+P@oVa@
z$6=g>m0t08{x=rnx&KU5Tl&H8JjHJw#`QBlNR!?F?qqI%>-nvxQ8UiQ_2*5Jhpjvr
z@4=ZjN=Ex1{`@K%mp3ps%a^$_vUZ#VPgWx<Z(NOOm_{$*KSx%rcK5#>tk#?SPy@^=
z<FBHw{eMVTt&Urlem>08O>ns3RlkPk7Q<U8<Ez$>!&RYSaFotB%W!qLVLHEu8Rg+p
z8D?Wp{I0(`*x+iq!8Lb-J4>bq8=b2gUDe%dm!x4dUmbFk4c#cc-5`6b&GKNwYw3p9
z+6`}%`qAO$M|%veQJ+Pw^om~|xY7I`;MC9ke+;lvbn1Q-#?$QFUxtUX;KXRb!EzlR
zY<PjL#I0S0?-o%U{s+c~O_2j1!(>zKB&qHsEIQ$7lB^FVVyGLUw;SO>hc`2N@XXJH
z#lglGX{Yc_79JOW`Ec?*X_w;qehJx6lrUc$a4n9_i^<I@^Jj<aHA|xp4|-OTC5B_J
zVjU^7&X101l+E2JpTZnGdvfxvvLLrc+jTgMqaZx^;M8;BVsw&|;mWwo!MT2(r>b^G
z#qXlYCO@EdSqGmWwa+Ph9j-$^Kj0Y0i2a-o`yHjJzx@vk?{5X2j}~+20s82bh1%HL
zU0FEn{M8*0*2D*dCC%e3(@m6pnFp(B_*R096XQy9>8Ig}aN)7BzvMV6{`NTApVY|{
z{VP`<OBmLl%V&R|Hx?^t?c==hX0<Bk%uzf@?5Mrt$MM02SJfWRx%<QR{gKE)N9kbe
z!S0xIw;;5OpfaxVS&q-e$G2avMw@jRXW!D%0hgI~i@|?nbnq;`jk4>oXk}55A8;1C
z#*>P}idffOs&`uZkbDtl(R(;muG?paAGA0B7*h84+}@q`w)Y{28fD8cxA!pz8(q(6
z%)^dvtT`L<ij~Dbjk5e;qx(0nOO`Rd7w!0l(R}6So3xC!^JE;~{_>bIKF=^WO1h+G
zIl8WKZj>@Ud}!6mO>u&dW<j#6Q74ODqvO-?^v9rgG_F?HX%dW=JAXOuaP6;pZP!S2
zj`Na0rzL@E-J~RvTacV`P#+iGN@8`AI9Zj(S}y&PSfA!Ch4r~el)@TC@w6oE8++}Y
zBQvcy$!7q|8Qs@qgK}tIVgKTv-ZSOX*1kUNpYtPafBa`B+Be1e+E24^SNY=4{m+$;
zmiGOW>u=~^D^W}Kj759$CufbGQ}*b@_oOa8X*o|sd{5q>Cl@~G@I7mbo>lt%!uPZj
z=7+VvrT#r@!2Ga+Bfi6=-CgfIQ09Loju`co-EaM#^@%Zm%ejsEJ$u6H9wpq{`=0!T
zQEB1H!e?5|`qf&8;nO%OKH}$JG>^=2KOU2P@zcnkM#1=Zz7ND_tHM{d4==^hEX<>2
z=$(H4@Nr78{|xSKRQo@EBPV8LEspZq>8|JLKvNp1QGkYds%On;tZJozwYPa_1TJX6
z<|j`Nd!)lU3*RuZm@eC3WhlXl#wwhV_v6Gj(AEsik|fr{QY}n#g!gq|kHPOv^Y<E_
zd!HwM7rXK}V_=fEyW<iP)Q+ape>cO|S=7Io<M)YzG>PPs^h!x$`Y2ynvT8+t8qpX#
zM|M|>zY<i53ECcTdh!KvNRZ;+-)4_xY;ziA>)79Zg}bKk`cd)U!G}gqN8R?ruh*Z;
z;mz3Hop?2;;mqH}d9(ZZ@6Z4KqBlhJdQen3tatW*?tlK`HbvapY?;@);bb%4{q)6b
z$(X@%y}K!qM}FLUcEaZ`Y}<rww8J1-hL#F<Wq4fTo(v3Yd@O`wA`e(x%c=g8kwiP)
zPskv6%3H*%)BenasI`+fOG{n|*tj1r1ytCK*AgP;#1S28X~P?82CWBgX%yIi++fvx
z_r_M+PDB66(tp21blib@Z2hk*lGYWTa8@GA905It)<;t+2X+!aT=mk-L~xHbd17g$
zg#?Z}DUx8}X7(gPV%==XpjsMnMNXmhVM4^fHe^SuE_^oo`1SV{XSNM95gqqoF5<#Q
ze33CRC%$p8mR8)-b7;NzPUXO6<cBM6bSk115Ui`?$e2i79hZZ(tE*F|=g`&FX;3*}
zT`j`Zx_U-JCs}2dUB+pf>8YQK4sDzcJ%_dwT`C7I1wULZMc+jDQrWT?KZJa=={o}<
z8Ey|JQYzLU&Uj!;U!HTaXq|aMC&Avd0jTc0GF}wyS{@QRLwhvt$&o!2w&Se;h&l0|
z%(OJ&12KWtf4@i&*m}%Z)pgtx<lXHc^mF*4wGOx1M8t*NHkC0k!_7EYOV7>eIkdK0
zP&u&k_~EMg9!&(VAmq_%V|k_BiKPi}PcEfs*p`VHi#hX|Nwzd+%1Wd4XU0Im7PTU%
zF5PgBvDp@V7142jzKOW7Ip1YW#F;hY{n%P}yRwtFRuiyMaci!C3QAjRNQjuQ9vx~o
z+iNXq2Hixj9T{(q_1^L@<=3e#1H+~23ZYoF`Yf(x!8CnynB_gJ@YuGsW82&@cWm3X
zZQIt4ZQHhO8#^=KdGG!1KY7lRrs=Ou(x&Zc5{oU_#P%r!5m3EOu4^&Hb~wH5DWLgY
zZ*s~BXy;EZpdB&>W0|Q0HN2`4;#$DR`{F5b)#1PISK!9Hy65y<len72jrh3RA%@7l
zNdpbxjq&i&`2r`eBo?f!meIM?b+`3fIv!T*wPKp3hUGWQgN(wnC+QnR(TPY*8OOm@
zn521;l+CfXr-ui~j>W3#nD^X%o=y|Bz^<Zj-VB&QW4IcS|2CxGVk}Rk_a-iz>$pn^
z577CKvMmMQ57+xlb$l{i2VFZXT~H0QRV>gSeQ$*NqjN;7vDr6KGjbQLZk}Mz6NGvV
zMEelC^7DR!NE^ttNfYFdPQy&!>L-^Ehe2?c0Os;X7)S)C?lWnsDf^9L2y7$5Pb#pl
z$7rOYhGoaTIwv&sb!J-{825EM#UBROj*{4Lrn5kpuG&p{I{$eGKL#W#4!5df*1c@`
ztMQ(7)3?Vsq;CRet{~MUN0G&R5@&(ZUZcI=QseX_m$i}B(l~BJYXXqO`-ZX}phR|}
zrkXem#N=}ywz7eJE&nwt9U-o-+A~RJzvY1ojq$Qm2^G<9H<_>bahsF<`?Swfw4pRV
zr9zENy-x8t6DmTvLf1_Gnp(v!Udfzhnbfe)wjXfuEV})#@Vxa)x(&X_mY1;VYv&|P
zcM}2MQUmaxq@b1tJ{)j*S`PK<%6r#xuhcGeUA0<7Qv0sXf64m$H;&Z54H0<F<mu?#
zg#gyMM}`cV6^~!tG51gPa((1ssDmG+&H-@;s=N;TmQ-Xa0MWU;1lUi3#r(^xL-f6w
zg~UB5iLm;^jzn|YJ`Ie7{whg+WGI{YRG+T9A^&u)gRIbT&vh74?dw5==-+oDo$IJ(
z<XIc88h~=7IXa@9=~$m`JAK~Cd^=r<s}A=+h0_BQpCxDLfnIAvZB0D%84HVnvB3tB
z?n6+8nPc3Ud!pAJV2vqFg<ODF%LJkmEut44d^V4)m#{K#N;mGjnPcSV(&|K5$NYnf
z4~&k{K|ySYL%3Lw`tY4^I@i22;x86p#>b(a^L&CIQ#0so^ob>QC=)u$=S~kg$lita
zn~6fVu`SgUk2%r&i<2ZsUs`jhvW9i%>?zcMchiR^xP;*rV8Ukn67zK&F=b(SdP+dK
z+7Cs`k#AMt(wDW+px``Hk@>zPhdOGn%rUyOUu;Qz4tCRI>T7BVP!TR&6cEb|yTeCl
znjG{ISZfhi=F1@?T6N8n(?bivvmop@{mOzNbm`LJ>7aUN^3tF^0KNKp6)Wm{IfSUZ
z@xsJ&!`)h~3SSi}Zjud?Y^k(s9FZ!baa=UX?~~d@PIlyoadXh(8LKAT?5Ws&8p56%
zS+tH=*Z;K0+||Or>HS(!KW4`UTU{g3t*-O%D%m&1*W_Q_zKS|?H;EI~ZmR&rM!n>t
zz^gJj<SIFx`?!yu2)G_YRNFT9EqLB+1+L$ACo4R(?ZR*{;D`mx7%{DY83XtBjH}7E
ztIScK<6%&RBh&67cA>fiQ}%S#uV)9ISD-aQO<+f)hu4rj%W*zc71qO}$u-MCz3%u5
z$x;U+SY><m*Cd0dIse3+JFa(Pz&?K)Kn!8zv^6DstI?#IcKk^~bxd>zDr%<DLAtPN
zw#M#TDGbbvR}&n>XimpGQC6o?wbbe>@;Q9sg5aVr+R(@fYgPcGd|>~J?aZ?CXpUyz
z(HNA{ev{FP*`px}{aTZ{3edadTY%m@-zst0gTL)t!cXCnZC5e-nR;vwe^Lz|`s|57
zglhF?AVqRL1P(Vh9g+QtSV>YdMzWTQa$imv@fw*1LGBJqMb!1+_|1PasYQ&<e$t&B
z$@PedXl)^TsIyaR7Zf}r^gdsa75y5n^U3p~OB8U(pD9&W7hy_5dXf(wWNDEXp8b1s
zl^_DEt+KvI1rz5Mmc!M5=%FRGHF4j8f*jDvVKYD{jYbYMKbXu&=eZq)A^LNh!qs%%
zsktFIG8}0N4|BcKa<~LjtyMUs3u>yWsdK<qmSOVIT1<8_-$q=edsTJ%#G*DVp~~$g
z`Jj<4nCK2|)<3pMB5g{p!_V5<bdWJqTN#WDL4Nl1uQlDR1ZN9!E(HGKxfebTE?e04
zP<$eV)E|2&UTTYsZo3m74A^!hGBI%=aH&gk#Qu-q3;s{=dX0RU6U7~6rgJdQf<=AI
z4nZmj-X9glR13kGLNtm16v=<6=vM8lR)tJE>sLLy=@9R(R=Qy0woX2&zv_Nb9{SSa
z^jsQEHQMu%bu2bO6+ElKE<7?eallH*_->};2LnA@W9jKMdVuEt^Z*2i-(KRVFYqvk
z&e8I&CoIPyTL#8?maU7eKg2((%`Wq2MWg#oYrhKX-wnX0&7<;7&K}q-<J>%|{_=}W
z%VH>iD3#fnC!JK<eaQ$%r6PQu`I`)fbE+*Ps_irmw%MFRql&SONutXlv6q8R<G<i7
zMjq;vy#D^Mk{iwaFp~@Ic`wu_tbLZ%ThYncea0uvd!}~I<t&|dE6=sJV1``NHp?N<
z<<x|dWB=g-@T%nDallg}aH}GXyWln`4@$V3u_T)mGxWU9Nr#hNMT%@#63xXoiG%hw
z0Q1iAHF6J?OZ$_k=QChUcEkrvk(&SPRcIf3&~(;6d%yqu$B=>*h8C4W9ew;?s4Oyr
zcHj(v^tTSc_fY;H(nGmz(paDQO0{pcUlFP`#Moe$CdjograRm9S>XuvUs?bj%5JPM
zRsYMw2TZif8vY-^RZAJCVE9+3h;d(`ev(5J<!;cM3Gm8}VgBN&)A_bhr@qr5#~L@<
z3CZNAP>~4f$E4R+2%hl$-uSkpPoyL-n~Q8BHPp{oo3D_McsHN=W1>fQ_@8H?$Oq_!
z>VKbhIQ)8&OLV2kMG>W12cH85cqt$+`petr>*h*=bRCy3Otp?K1#}XydJJVMhhK7~
z=Mh$yx>5RP7Aq&=aD~(;qNarhgcyof{>ElFbqCLX6JLQLmsQ27)+Yc3k1`dN4`C7T
zaBGRUXSy3)22StAy4QA=c3dDMpHr<A5A4HXGExbMUNy^xo%gsqf@BI%1!S25fgOrg
z0cY0Da9~i}?-C#bbi-L}sE-+7oCWkyKm}>^<5YmrMP{l4qzh4@e0+>Z8y9o6@nbGL
zos)7AKJL@JA5^K2Rx|0UlubV#Xbqxxtzy+2C%~dqXQK(E&b}v!`E{j<Y6w!T4rpxh
zzs6vucX_^Plg-8C3eYX&{(oCjm}apiqw;Y>V44ZJ5=iPKrd8B)3wZP$#mpMWsOI2O
z02~nj7k{rA?L_S)FC~+YPWeknKj1$p;5xNU2{8bw2IxxuFWFqGCpqQZSx&Ang_1ne
zt)^dc>3F4aolpv3OQ0DB2Lfw_T8qZPsGDbzJpo<`P(g63c%eFdfb8`N3>uG1B&spk
zf>fy=pR@LVyFcJH0pw_OEzf1I^1g4W5QFKsWkBymPJEW6WM0BeZm3`KpVUtv14A3W
z)`Ieu;50Mj%+b`zZ0o2|OeVJ@>@RW_oy<cz@*Va60{mn3;4i--^%ro>el~#2tB6xT
zqX04=?kMPGn(*=GZ9}b_7at4q0!H@^=Y1n1CW%Xc<hPj)xtxGkt+ezdDhtPaiK5~Q
zbA<_3MxaF(&_<thmmI$QZ2uSU0?6c-LTi|>zgz`XVSfVY61vZf5`h8uOmHm}raJZi
z5n<Xp9A@FGR}dSZhoxpX;Hv*wXEJhZdk7|YV0NxB%~I$@K*>Q^rC~S9P->1&7r^@o
z*;t^gliAW2Ew)JMsCm>A$l)fdzkii0W1ERG-wJB9&=C<woGpb%#^e>u@?<7=3}@#f
z5r~k+GZP0If>{5>Ovk&$09jps$8@Nm+X8r#$Z5NmheCT5rG$*)G{Ti(xgQhNu!rNO
z?U<`)x_PK6GWx}Y=3o%?-_$33bEXa(wUs8e>V6dPy2idq#{UIw%FcsS=kOy7*v9#=
zKqEiy1j01i>nfvY9d?SZ@N8OJ4KefH#FoIp;gTZ%W{Tr=+QBul%8oc|8)^@SrTIq!
znErd$3F9-Dd|Jhe7DCYtT1UrKh_Pw4)RPnw20~nBqByoTLS&KgG1pNY3?ep{R^Q(*
zCDy1SVrqXGq&-p#bjJH2<1-x9hr?nz5*Zn?90xyt2x#rIU=yUhX+wmv^#GRi1g=d&
z^{GJv5BF(hy!lr?{mmoQz7al0iu?fxk9Z^|x3`9tI0I1bl>w*4g)^MVkgD$FwVJHS
zyS94_z)ILHPK@>_IkoN=QGG8ZGD;>VqOHDfhK-8KS!6^<Zm5f+!-CB5WK*_=;DKJ}
z;MWCRUdOXTCNhNE2;(BO&ts%Y7ZLMmc*5B7zK>&cBDGh}V(J2o(KJ#;_1kdAoXM3`
zKWfvo>rRx=G3}o#npd9>U<(*x<VATE8~_v^;rZLQD3b0XgAWJud5Zuh%99GnuuvB@
z1H;En9YJ%^Rs2Y8Y%R8}S^O}ztubsM)*T6mNnD2X8sq0G01VdeLq2$j|0lb>7IsrJ
zffbnkp$H8g7C)*!eU0V;_8hRQe=*nIGxMUPwIK)awGEev%KcUZ@Lkj+gES`pV-46M
zpx+h-NsM7W!n_~r)j&Co62wR`)~*X10AGL*F*BXWk|YT*o#=9zdmBz^Ww++6mzuM<
zvKGSbm{|V|5;*FCjOKXL_7CV1gvY11QDoBvtzF~-6rk&rgud#wBsv1xTXs~_IoiO&
zS#}YN$xX@-Ae~Ggw}~7y_^e~0=;43N$S&sE;etaUDo`deGJ#wkR-!G7Bwnoa*MKd~
z3L6FxlY-jOHP(7z&Gmd+`Rt3l`jQOLkjOSt21d?T30_lab+1(HicIdB)Lt9Sj;MHg
zJOc*0D$S{yqXHcZu<mTg;0AuU)_e%fU=f?nl8Js>g)A{z#(flql{j(Bn9a%O?o)sp
zHiJZC*mhc<gBhN5T^$1i2`TvvbcW@;fZSxDmFFn-SG9c$7d@Eu7H%2{wRMaYG_uo3
z_#-)&)`k{9d0*v*LXLgnnV1478bYJ3kjDDzpbC&8|1y@{ZjP{Pkm?^k@WYhXwbTcP
zLw6Sbro-`4MA2GYUCo|$Tbq#(b>70w2#4)7`ekJJ?VdtVm%+Ltg}TSw8->VDTv7z%
zBY;$clkiKw=(h+PF#1Y9Ju!)HRA#m;!}>yth_m(<yIHSb2bRvvjHfjq6g@Zn2*6sr
zYyj2*k~dfXubF|HE+)3tH{tz7iRT$qD^45Wor%+nYOnoTWhOsCK71E<3iD~$=J?ft
z`QVU17;LO=s<$L;U<zPR0*jpm(s;?9)^}e>N2;#AEsl(W%0aF~r+L~y+g9pSbH+p5
zI9-oX=U~SRTVBV;{NJ#I!Zb6ENK0DBFzAXxI+2@M|JT3U24VRz{5bS;kU-9(c{YKC
z{j!4NB8)hAWc-x3da8o~lvZOI8U4r2mQjla4J{a6)Om*hfC|ytlNynL;F@arXjgAl
zMb0E%6Un6fAhyk<qV9t30Ry7m#rDeu2_l6a;-(~rTqB!j?ina);WVc~QzeB8no;rO
zcXeOp{|&pCo-}?i`@Y3p%b1F02!%JJcia?Cz?(cR!%MX-EFb70P;m2+)m~h;#}PuR
zBAfn;>wXiGC7D)P8m<L-!L2@muBE?8#HF+LJ5{Smf{nLt#%den#v|>G{zzHqYTIbM
z{1GMsHIp<>2$~wIp})R6ocIbU%WrQ)<+`IK`&(p|Z%{A&&mw*ZX60t>_YLG@YgjMS
zLTpP<Yr%Vm<jVQw{q;TI-p9RxuR_TRT7_Kc1@SzpO6x}Q6_8oHSwrW)*r$MNauT6C
z1)I)Gxz+O*BiB|2?236sWJ(d6*Hs3vc`(T~=$oj)rfjDhzE|>g1#f|@Dc8pBIP4tb
zpsSm6ho`Hb53XU?7wmNdK{IFGzMxHi{<)<KGT%((F2u7+HW|s(H{{a$OcBl^s(X&^
z`mkPov3D;qlVsa|6cHLRn_Uc?_o6WTk(;ghKQG$%RD+jl`|HT-gS%p)Pj{>MsbwRd
zJOW!NZ=XTdo!StD_Wo(ek?(lM`OJxUk?HGQ(t=RT@qdp&MV1pMJk<?Cg0}IPzl)EO
zQPBdPMBfmAjN0h^4Z%+H^E(_=d8{8UoTMQl1wTjv9pvHc@Q{AtK!PpDTvi$kA7qIw
zHR%0|R_E)2QU#uFs>?oQ1X@7&V~+=cJRM|kvBPDVoK|Ezu$I;aDeCksL_9_$(JxFX
z;fx$v@p%Tk;*A%UjVuVZfQfAFZ}>J0JG8_nUx3u&8Rqkc^My@tOhSrL7<A+lI4ois
zY&1f(W!4~7E!G8D<DGR4Is2zJn3@84i4&t^Kt26W$WVHP#elJK<oZGb#*s<qKtDM&
zOKy8`mAKlW!0hL3Rv1O}iG$SDaVWPMc(J>s(J8r_bEY;Ve3BJzQd+T)2n{u{nDgWL
z``~jCuIZY`?npA6g?47VN8J4{FU~K?lHgP!iQxQs*>B9Ea_ls$mxL)sbM`GknsWj(
z{1`=QbWS5}17Ie<P({Dw;x6Im_-UC2+KjD8ks03TqK15aQ?i3dM^lCO78V1*8-N9@
zzpU!S2som#DyPCx`Y{FAO?8upd1sW$X0a`iuALaDrKw7DuE)62%N41rmAM0KR?9sV
zDxXLA8)YxvNpO$G=6hkQw_J4xtJHl4Qp@+fwTFJksS`i^YktI<ET7lJW8W=gv`o7Y
z+t8&bs%`}0Jc)|VNh4VYG5Unw-DIu1rK`WJH6(Fn??>{=9D3_gi`&^XPih?x?j{H+
zta3Is=Qf;D6jOE}(t0pz4DR*%hV9mWjN$zS;q&XZx?vhfp9HuT6TZRnp}PK7L20TM
zz*G#7bRYg;)oSSASO3~4DuwX_>Pq=8OSu9$e*Q3D^PTLXkgV`Jh~tK!(U6?2v#^5V
zq{`CNHIjv&f!Ku&htj)qa?2XIecL>LV_Qb6UGI2UE-_(#cQsvLW1w65s<5FK*Y#!T
zmvL<e<yUi3|E451-j3+kNshV^WL7&>_Yc4w+dmtdq`E?ll7_jH1(oM|JXjlw3B^fT
z;w4LyY40G0I;Ur-mY?ba3SnUwQrSAQ<S5N-u9R-I>S2TO=+#x+bFTp+oq^-hfycFB
zGyAK7qur(TxGyU4R;^Po34I6QR@imH_F*xj_~^9FuR9rMe(r$mYLGI`K<qte#1SZV
z7%gepBkCWd&9^Ht9i>m~Xrymcif?Y&K9b{<lEON_hOtIg#H8eus#$njm)GqAo9SAZ
z;vsGzz;+4Ic`ZT%>$-c4!4UIYwCDz!DF5Ty>5~KbiTK5c(HvF_aU}!DO`>DtwAogZ
z`x!^8(Qq8+ac%l%p;UIk^)*VY<y<|6mMbxP>2y^ua0&K!4FkAgJcp+<iIe^wh*T&Z
z44C<!>+}1u(|bEFjo9$@;MaKXd|a*Ce%)H>ASwM<8s$3UXogs08A(K>$=j!`hXXgv
z4}}OSvk$jj2VDm3ll!~V8_mZ9>%$Ms7o}vwdO77Irw`tCgr0<a^iyEInq}`)t~yRt
zJ0n@zXkH_!t`C3GFjw`cZ|&nr9=;#CO&P8Cbdk$gVjw*2VI0^4>x9PGrUeVlIh?O5
z-j?I$KboHdE6(=ansptN*$Vy#`c@%Uj}Af#(K7+NhD6y3TC_S*`@HQa#A~$^6nM4y
zDw;$;)ai$-pCHa*qJO>Q3E%-;<+P9Zblm%T!;7--3Ytgg#}!)^B}%sXx%?8j^V!Gu
zu$NLtoTmqymCoH%yIPDjQO&=ri{zBH!;&`3yHGJs4vQa76tG=}9YfQYq)&#0GsS4w
ze+1XLT{XrqwC`$X-bi0=6uHEU9eI&1LsKTLzxxLq$h2;tPW=q22!R@t{y8)no`2G0
z;ojsyv|EFwL;iVJ_R8?hR@c>T0EB6rNB_A1HO3)Guz+LUHog@g>JIv%NM(A>av9*4
zD{pmW+jD&m3fZty?HwKFfRMh`80W9Ue8sARUaO6>ZD_^0bvMK^<%%L)jGOcR3D<FX
zf68%k>M$1lr^mj_)G$0cj>9XZ5XsTP9(VA-x><a?8(;LR8&8lzuQ+SDQyLwQ!#eN5
zy3yCIfP6FrMe5bz_w{)%^i$qkwHxN;(^{c5kl1z5%Bop+ppTIiMt86NsZV3yDCL)E
zo;qRC3uNd)4qhaM2Z4=%Oex2=e<$OfR{R+^{X`t9rQ5dCXzQ*c&-=SDdlKaHh1|vR
z=#zo7_x%TPY`@_Khqzw#%586R&a*}+;p7`=YIS1|^u2J`Uq3}!mf8!#lqre2_xisZ
z!0?B-@t3q-KavU0Tm$?f6{5TTT@e%O58K0$aT>K@2Y`1Fe@0zfd(>HBw=ru5-O}jK
zbxQb)MVs9HE;}w3>k+w(DH{%ZVEFlb_02GRY+O@j)^7owJ5Jy31q@sH){!X=d7R^G
zws37>#$jzyww59>avBj~_6MEp?7EleWG@t^Bt}ZmqJ!+GlO4;D)4rYn&B5y1B3tM8
z<;6kpACgPntPq;?UF{!B-S)lqE0o<{bb;YhA+4gk&tWg8BX(wPM;>^v-n6U(Qr<qK
z4;#1zXy5EZ5xiLL-1Pd{%TV|OlI)ZDXy`5<iJ3i@acK-I-7)NkgX=s^R^5BFTEx_?
z%}sIX&Y)85G3?@f+VRN2!m%Bff9C8)m(0<T^4{}GzE3>4Ve3jN72^94T}CMJ6jD!6
z$!GB~1jBX9=WWQkd8L$2d^oiw0Ypfw^VZlFjvM$Tp2~-EIRm_&%SEsq&kMFlZgVD_
zlW#!TmkAwq9+t3IA70_eQ$fjJp*x(alRA&RJH?HPz5m`KZ1ftnC!G4O`rU0}=Khw6
z7+tXy`>0odKg;~)AuSr<;?d_1i=#b$+;{$EV@7ISHgS7?^zSLpPwz)}n=g2Wc5>am
zp8Crv-~SKWHy4E8Dti&94&LFAtnq}i6^Znx*+JQx_G8=7-CWhQknP|R6h|7LmD`kc
zbEt40b8KRinVkAz*~VK3eq$J_p7%Aj<nQ%W%re_%{!T8|%yy_jduM#%p$Mh*!qqly
zM@>TEO?zIs;Y;dr<DeC|vUTq$vS%$tx_}TpWuT^g1-2hbKU#?=U+Et)C}auyx_z<2
z{hGId{v0vzG}0<uMsuKlhd{uPZNVAWP(x>P7w`!5=!4k7J9Kz}U|1I+K_b%&zOxUL
z3Fw%vb?2V9SfXt8k;n9UhE*IT7&){@%1Sy+lPlJ-zo?ursy`%x=UxB6Ogon7wm-_$
zZVfl;wofY8Zc&t~-B=cA$R*u2lkd)E9`_t+9*0sqwwv}VH||-yXw~j{{43P3uUriu
zoRn!?S(W(%AI6bkT5ZRk8Qz-pSGV8Jx<E_bE*jxBHNsYC+O=!3ddjC~ndVLYjH=D8
zf$CW%*bS#7&Xa7m(Xm|Zfn+`fb%2pon%@eCWgl~q2Kw8&JCS2O$~30usKe2BoNYSZ
zEz1fA^ftEIa5~YXcpN`Aw^{0AOWRU)=M+Mzlk$gik@f>;*fVuR;JEQMNq4@Ha<wV^
zTO$>tL-etH$y$vc^NfAPBwNgLgCVW6Lv(UovGI(2KIIwX_ux~cBTY@z#C4nRymsfA
zX@#Ei^iyamZ~Q#XNBl^}j>zqgdPDX(Mhxn7;g6tli0V8t;Z_H1;XGBA2@M~z*r`UM
zxn}kJuwBpgvQ^#uvt+JWt*1$^!9;^&5e;bTs0r^P9jp)_7EZsXnWt4r0<X^^H4lcE
zf|Eq_>^jK?DIoGlI~vknh1#1}b{ej16lS)}dnw(5b-VxO1G5~5=QXmnSV@m5n4YeB
z?jwA??s+Y)YI4V*K%3F{Z?BnL!SmZa_iHqPGa9dms5WPa12w3AwacBWDGp<MT?ryB
z38fISphHrS^~i(^h#N!@Y&=MXu?ZDPBAOCc^CYfBYnV}Aunti+C;fBFFyu@Ggj{H6
zNmdi+5c(`pv<{VKpuq(`Oz$a_Gj<Eg7oH7g+vQuP1bJs~A!3>SXGtRM`sL(fu;2W)
zgK(mp);MMaWpQ9qj6nunMDl@>hc+VlRj~#U$=)xd^1m158h1q|NJ}L?QH~vgE6d8B
zU=+1eSPhJ8#wsd`OYVpaBrk{XLH^43tFV_P+QNtt$sT~y9HPgdH8Dz;7jGs`pp(Et
z73cq3TMqu6*;q)LXqW~Gb8eL_uS{abg3-$;#S&1r-%%Xzh!01YWGzJ+V(mggRj(J&
zG=&{f$r$cb-@inj(mPPjpF%n}fIw`#FdkKc9vV|yg~Cl|3sv4E8LD+(-n6!(Vo`52
ztEQ^imoA7~y8`W*c0|*Xz1ADZo;u@+LRVj%*+&OLcLl=*Bw5?XU)ahDL+9C<KX;<=
zF&5qgZVZWRAw70aK8N9wPamK<1J%StSqc`uMKSk~w_oLWVYL{mi94CLx*7bNH%K^)
z_jk>ucx1?q@{9>>J);J4aZ^G><sd$egUgmMiI^7)_t5e=as<{jqC&*{#$S{ozF*W#
z8{f_m$IvJd?(pMn%7#tnN)huf(qucu3UUNkwUg;H9@0yUOw}_LEHWreDw0RRxr-x>
zTM8&P>FEa-py;&q@mSsNI8><U%bqZX6--D&4jp~h07jMqum{QAb6ieFNY!xRlBps{
zMVP;-nU)j#B7-NRx2$3}$i_WcWDl@oICDq5o1+zH9gZ<VE@|&=x9S@T`(K~bH5T^5
zp4u8|1JEf`JaLTZdZlurvbfKdmNQr)Hma7{pWm5MHEs3uDvTs(U3l)>lrIYTeJB)B
zwdhPl$4|~0M;xx%f@;L<f<`Zv*s2WyiRXhXqa$eOO}f|uv_H%es|0QDL7w#`-S;R5
z7>?le&OCU|JPSO2(MlZIn4$&XxwaVe6R1i2`7N8<=)rr~xfIWbIyP*{jkZn-9-u7~
zvb-fo<QFnVUc-U>@TOmAse`*BRCqcO^nxJAeM$#dMG8Nj-z#ED%0t3=+*z9U5uAB|
zMo^O9F}gopA#)OXCF_lPA<VmS)H~0qkqPRm5>{^%fHILKk_F*Nl63t|40g8QB7n;Q
z2j45^SNcMN^0JIG7)ww#;)WbmcF1*|*lIC*=8e5nP<!$aI%2iHmcg#Dkt-D9+wi}Q
z^f~s}0-Gjd42_VqmnBJU8~SqJmynuWsz=Fzf6qe^!+`&$bS~MZ;SRo9p^PXB1X5@w
z)gzQ^6xF7MMvD0)=<TW|Mq3t%n{P!r6S}zZgrBR_acdjZG!W0gX&Mw!X8uUeACcDr
zt<D!-#wGS|IA;jGRJZ%%mH#=snF9%JfM3%qj`Bo5gWtUl+n*luP7P`@<+kFseD({g
zaKDYfdqSnxjuv->1de9?ts@7~q>b@7A|*7P?TD2e>6nHWnVz{qht3LFWmqkX+%sAY
z?z>p=lm_%d<Xf^B<8;W~@{dFI{P;1R9C_HAEvTbK)Yy?Bu^0trCkS_Y8^V}>mv+We
z=hNBYxDOfqmcOp&&)E}6`9Ls%oGAR6=vEsv-%uRx+@uavj_yzr?p#!xBg~gX3<C#H
zc{T_H&_VtHkl;uTF3{MU6HH$lYM8CR{BRL2k#d#?XfQSZHWF}6cHuAO`-@PhArJ4Z
z2)!~Qux(CPrSM>EX(8)K{ZSK%u=2w#c%ln;Hzg>}nG#`E3Pf@wW`rFy5Cq04A|m=7
zpu*TVj$j~xa$+!-cQoh269Dm>2WU8V?0-dN9KlFC@+?ro-Q|Z@|FQ9c88W80*#Rnw
z=;i1$Ke(G_G8eXKKuxoY6k3iQm&@(}7DKJI^Dp46JjZhR*FzPGG=el(C!5vg3mQ${
zvkR#A$T37@cS+9U@Dqwfay5-4Oh7uvl<5rwC}-#cDjG**>@$A=gTi`-w#{PD2U<9R
z$MSD_2ZbQAAqZfCIzq(?64VW#f?B3o0T18>RYI!ps|NkO{DA<qyto2furZ7u@7Tf$
zj$FoCN~Das4gZ&TV-+EMOpOs7*#oweNJ}`zCN5i6NG3&=Ymx(uskz=JHwZY~6G#@)
z;(<U$NG3)x3(^2EeNfow22+JcJ2OHuHCWs90Dk{9v3jI{6Wrj1VTq^C3j{gn8n0v&
zRCu6)lTYS_1w~_{Tt*T-(Mc~H`v>cUhMa8|Zdm4Gq8kbvnV4tbUwC8zD3Ks^LK|FB
zdEof34gzSh92_dauus;i0Z`G28&+Sr2LU-_jy)T5bmpr8SW#EBaG1iQpp1U9Hxeio
z8^aKg*fb)Ozrv#kCF3C9J4q?0%T7439EINyP+5}r@BaIj<D_&DjimB%1}313lME~%
zmq%GR{|*lda>1N`sG#|_1d+h<9E2etN4L|`OoAKZfBpkX^?@QgHXmM(sxt8%?=%n+
zJRY><65HMwpv5^|7%&Uwe!fw_OSVTX0MHW!y(G62MU|ZRV+hoo1!)8Ti2nghBgjZ=
zG_lV|V@ml$(067Cb-M>sxVoLA*>wHulX>~NK;d^*2z|RpOG^Eupm#Q~ru{wpTzGI>
zch=od|1&O44-T}W0@Lppj23sRPG4QSbn)6Rv<s(+*k36$yQFpvu81loO~&Jy$Io9A
z59kZ>zU`_zU`u`Sk17ZU|GGZBn}1A9@24(9X<oYQ2Z77lQD)J(gEmhH-_js++n!Pt
z>Yu&?3GbjM=Xj>>q*lBI)YNrjf;TV^HBw2p<T!6ka;t0hmXA?t@bYNi@(fZ0qERMV
zDU#h8z#V^ySAEPyI=1PFDn*`(jTUIxhEXi4cfOBOccnhy`<!icYKi~#9!2FxPYiy{
zAbM+pi9A?N{QECbsC>~;ffC~Rj#SU0Ri|lCxbj`@<MIhM7bD~~rc;)4u-+;Qbh=?N
zkxomzma43v&h^{GGf}{j<D|*tP=5_zui1F-^12Fb?Uc5{A)6*r`+zX?xK#gQyA{2Y
zOTrAfRMjV5<0*N4(EjM{L)V_jbH+Mz1tN~#3ylB$Db9SS!W-?t>u+k48@?B-N|Jel
z$n*~4J|1wO*=en-&#%kY*MLAD4IH=@X*D1|Ug!;-;)BUjl4b9<3nn~v4BabySA0|O
zJ?)5r+>aty9SI*e1{ov+qF;3oT6mF$qcEeSMypPDmx~&>MKx9C>A{<MZMF*<xUapt
zThupHQR|*9i{U#rylmasYvhzJp&mvb0qeY5@#&o1tRE%qyl=gcKl~TgiY$r$6ST*4
zzzguA(AZa@*n!QQ*eK-4ImSM;M@iZ95}t{(HW{GA_|2X|jE(J(wMVjHfAWlRdPuUa
zakGJxuzZ9W9kutA3Aq&7wx2b+h)vgII{MOm-$%@o7Wf+UZiryw2F`%{%|W7rwXz4!
zc^af%_d?4UKLQlkYEMLJ*ZvgC$#W3>5WW8kPvQ!h?M>HMDbmdC{<TCWeSV6wJ1Bqb
zGf=p!H?Zsf`i34`V+FB7o`m{+h>&Olg@7|!6J)w}nD21KV;;(lkXb%kHDR_z70Nbn
zbsAK;%w523T*?_HGcCpYA-B&_bpMM%{)Ez3cks^@3nd(OWPuh-ab`bwXpZ=DqBvYy
zL_#2~L&dD0b}_DEiDCAlOdX0@gPA?4^!^*{po7S(CqHot0hVOi9=z;%62H<}j`c*e
zAv9_ecVBqnl0nFdLxX~p!WWCVdpnvbcIdkLT_IIJjvh_N=x4@2bVup*e1!udMGTrM
zxbGQ^E(H>sh=F<`B$i9XM!wcP@WT&fmF^t(k9_>a(?&0Z_ptduF>LiU_H*t2Z+<Cw
z-=a8<>`UsAlWaOlyw(n$R#N&f5y&+^WZseNQHxXs%~|~X*#17)4%Ykj4ur@&(0@0^
zJzybOQL8bV+$fg^83PV$Jh^iFo<IZcj$vmL(ODBqIDh^ohMn+OzoE!hUm7h9{dkU|
zOh~wjmk;8Kw@KHE_P~W~VzDXtRNg=q*)Q-txJ*{Fypb!em-Dd+$ws<8=P;tFQgj=^
zw$^7j7d)S8@vr(yHBglxlu_aXiN(|Z*>?`DM!^eG#L6+kM)rxm0he0lEV3gB%O1Eu
z(JK4QPQdb6ApG0^dg03rLwFseBY{Ndm!_7Xh^1qI1-^S2coA*?Gh&}<FV}j&4g^#A
zqp!{-Jaeg)gd@7|wrzGk;(d-|gEG;v)h(uCde_|!5}=rb`w!*{lJqV+f>$19bk;mJ
zcW<pqgHp!t$tB%O?w+9i>=&ZLJL&$|U<{*>@(%uwkVP3)hZDpAk3GyeBw8p7>tMc#
zyHW{{JXX=a7u5cwvn^MRpAM+wsa)p*<eltN9Oc{gP9o;w4(4s~Y}9TO2|j&?v^Lb@
z&|fYg1eXj<ywq`eAH3v!hhVmeg^Zp9SJwWE7Rf9N#KBoamm<1<Ymr=VKqxqg^SRBp
z(KM=Q+AO06D216x5cgg3zF=o6K8YyF?PID&%*3{u1dPh4`(ts6u20@v6bIvY@iE6n
z(3tYj#K;Ww$gt;MigA7Tjrz+-&qrWaMAC;g+iS;k3qvd0dy$tP0+Q-H^+Yb{Lv}GV
zm@MZqD=&N88k=9^eG6o82OaE`kKWnI)VuaY?fl!}e&y@$zSO8N9HJ%U6$o10q~zNj
z7Xl^OuiPYuI@ne9i7LvMW*V%=MMI-oBy<biem^BH0P-j^+@M3h_NcYiVw(sbhCs43
ziS})siSfdShRZ!UFEeO;mNA)*wN{+UdSx9mPf|@cT-=U=gTK1fiWL>=Xd3TciuTMj
zuz|lfwI(p#lL3yaYsWa&VTbMC1U^M~<U^x+F*zhM7e)AuL7vtP=lWM4?E0B@-<0{&
z#IQKO3*9#QulbY7Jy-nc&7?t|D9^Uny!X9gcypDKO`X>(S$DBa=Hhx@Y6y=Ket~PL
z8HiMzQfX6)%csrP?j(3-jWVFUb9Be}c4naXkIL27^bvDS^cLm+Y*!w+;mRoYf_%-v
z#yGi9&Sg#%UfB<iw6L3l3%QIm_FTy16WX7bN~J99)Q7-HD%Z8*td&CzVes5}J%97>
zD*DfQE<<7lmkIja*u+6PNV0%`=Ix;J$HGU{pxHO=AO`mmoJv``@Vj5JrHOQ+9(C&g
zjbWQ)X3BV~JOnhwWO-kxj1%7NL4bc~F+2&_LsNryn3)~v_46<Wv+aO2j#RQL@Y;*a
z4UH?^)_oA19)}+3r+1k@(M(c(c?Pz-P`2#}$Y*7>1iakZ5QR7CPNt>Z;o%nK{b6!R
z7sR)hzG*=*1CvWfcb`1R8yvp}qj8{j#~_0a*ahz}<%IN@{A+fP=$6EH2b_lqBr+E&
z-6U4TduJocUyuct_O#>p0b2qm+z)ddVz;hSum(@c;|?CwcWDR1u!K=_{7lHpaMaM4
zr*;}B`uFC7E(%O;HC;2NKr#K<cJdTr+0%A7yaV|=nn1e^H7Rv5jo%9`TgE_#u}DT%
zZ*BytS=YwOA<DKE(*0|Mq-@5dsBnL8L;)nI_RS!23%<FlryvWy)!&wDyMSwdWs$DT
zOGggL<XjJ>o!8tExz!$uytNqmfJY7&j3PU(==d3Q(eYP*q+z|E;ToshFr;oO5#uN1
zur*}{-&hze)YbQOW9f~gP+if_#fo9Sc$u3dZlSm>%DwO?CP#!|6W;?tLj6R3FA8cq
zAwGiK9>Uq;2aNecvr!Vgmz7(T|7Ke2<jgjS5*o+WG6{ZcPNk@3O+sm5^wFZqjz@5t
zP>o6o=x71$Y~zH512AF4D|KE^=%=kJeQDbSxIEWVyN^~sc5Dg@knYj)Ll=jXzB_Z-
zTk1*DH|^m&UV{B!!MxX8?L2wBmB;VFjYTL2jK4&Fw}`7JS)Pe=oGuyuEqh&ukqx{r
zG}2OvsXO*F$dKfQR>hrVtfI!<z|cnX)vR|(-|7qt9;BB7YlnTT8J}?hv+dn6lwqM)
zyWcNkl)u7>;cJ}eef9bmqk@HoN^$<;LZ3fHK6ea=gKU)OpW+zSsv-k>&f`Ar-RG7-
zb#q?E)p(Ix0OH9bwdYZmfkf4QwV{#eJ;f5dW|A_PCQ)V|2NO4{pHYs*lla;pY4;_(
z|FDvs!{0bdw#5~F&lFRR8~xb7CoYnHYk|JQnrOOT;WK{IQ9B6*+~BkHufo$vX_oi@
z+Mo-O&bJJkEfOQ$A}@Hh@<Tc|i`4MABIF{q(SZ1Ju<XicRD*H7J%gq%N{rqS2)tRN
zE+u-^YxZs}#>-{+xsD^!T6nUJcva2|f3<@iG+XEK7F#{i)v*9GRxJEU`wD=?OJ91q
zmk`#Y3}WG54Cl;VFuvJ++!}?ZDrN6kZ2P9lOvt~7^i!Oa%z(JpHfmca{dxPl>z-1q
zW1#&)^NXtOMa|Csy6pi;sqb}kO@JNopzpk?%@p%XOm5B~P+LF0#@CkZRPCpFp)DP~
zq{MTu!ABdx71l?PVjoY%lq*`m>=-4<8_BsY!6vT5vEJqrOaL`^WC-+Z`Cg)7-UTiW
z7Aeyz#FpODSvWFwy^oh={$adHtgY?0KmP!WcVhuPiFIWo|IXtKPz@k}cl64am2(vY
z)5=XoUwMA?1RfhTem~VX%oLdiUE_iKX>?@|v9nBoo_~I=j`^j6WpoDgH+FUYAP|Rc
zITH@9_m7_G63}ki_qTwSSaQI7pe^H;@z%;d`k)0^Hq!WCx~$zZnEl^-T5_A;?GMx?
zU@bQDELh|=9o2n)_uh4|>9c0pi_<&t>}^{zLwHRb*<6km5DX5O`&QbH=>c%}@tg-I
zO+m5*OR_g@i{<(=L}=#z1!ImxpUwT|fyao2cRx=AA-NoJzyIia;GK#-Q?`gL1s={c
zPO}2S=xlJgk)Iya!oC&x)_Nv3>;f`D@+9{QidhgDYf(3V|8B{WefJaZq7dzZzFoM=
z$wb_&KNQ%icVrO;jAh=fO0o5yNNc|yX|4TljoVhog_UUAeX|>P14>9w_3+m!OaHGC
z>1wQ{v2CBHZEQ(K`nAa0;kUH1T<F|Ol>w%2+#c9PT9ZnbcDA7$yaDu=RXFd4J$%}M
zF`R6}AC|ICdEc`DS3zL}!y4*+Sdko6C17Ba^aeHVXAyhM=W@m-wC`Y=e<31)t$2=D
zksT8RLn%^_F}A`x=50sS0VoGkf>36CzT%C{U^57LKkuhJ-}R~H>2+vilPX5Q8!dc9
zp#suv1Rwuh5JVq55r!<rD(d1_eK2Za`ocx^3(`V+D1CLLhcnFi5JCg@+@t_ux1P1>
z)8eur4FX3N9AyyL#)B3{pFYqZe8?Sq*r9D^3}EmmXySr6ffCCnAxKf1lB665v~!Y1
zeI>k?*O64oS5XZw$ixbiVb&Mur>Y#Lksz2Xn^q6z!hyd#@uj9qnYK@=jvmzu6fU}k
zATO~je^!c{k__i9#xy6Wr=lOe=QF-Elh}E9_$B_SPn-3!+zF))h`Dh&db##UN{NoD
zufcS`yH<Nsym3_E9L{GaGOVppeVJZJ7_p&kAK$vdDy-64_X!}UPe8g~^^9*&ZjMio
z@N#`=w4UZTP|Xic%Ey$-Hi&wuiZ?FYbSJ>PB;9zKkDDMfV`0cv9mYG=1tdgn;^r(5
zjZ!(!Ydk+e=6|lo#=NAIUGGY8^rq;&+at8JY$7aK++byZi|nYRN<519(mGjszk`uF
zhcoWLCAC=5CFEs$8#`Z$*OV*^^+G&bqA^vp8!IbTf(0*9N~=ti(;46aakms#{6owe
zAlKt>B+l)@Yi3~~h#&{g?EzBji4$+uIOeY{gX{co8b}7q{Z0<w$QH0wy+qDlgz2e-
zHCJZeAy%drk(GS@w51)49pbyzM7V_^4GF}9KLX1Qgr&6;?d&fC*S7%YKO5%^bQWy!
zvI*xeEd=SF@Mj(wh_?jS!bKh##grPf8e2J-d3OQ%Vh)=-aPCxvokL^|Ejm_SkIyC$
zh&qQX6l!xpK6IUV;v9;xCLER;oY+j%B2-WthYG6J!7yLJ<5`LxAJ`J9Mj8~XW^Ugo
zQFa<>uLhF^jKv2CtS5yze!s*sFWH~y2dap>Ckz4Dt1-SL3myOWnr6?POf<1Xk#vXz
z^8$)|2$5w7j1b;YPXiJ-(;3peWsdx7O%L;P`gw>ykOCa>R3_?4EO>CvJh49Etb<Gw
zDlLbL)n7q*H***fgjJ7BA+$T+6l@XbSAqrN$PXQ7?%?dvXo$}AF(UIcgnqwJmT*K8
z!RQT1|69$L2;h;bcG1jOV$(!;?Kt64q!X4vZ5t&xiBaZZ|0WV)xC)laAm9j!P%P!z
z^hhBU7xbVDLM5hhvAQUQnbc4$tFcLzp?pmv^dL)Vm1y|lW^BVQdLtvQ7E@2^71)7v
zY(uPzbnVt7u@_<6@9C?*>D9wuuFh}@@E4Yj#WF3St~&Zy8$<!fgRtG9SfL-pjEXOY
zw4<853|7$whNEB*E|TSjSQ||0G53*kTOdWQTrE2?N$#e>$bXD_uJg}6+8jq7=?n5G
zqf<ojHH1edDq^jFkK~YHS8c!xl`=ULDhfF|-1ag-X`k6a8I~Au91u8ghdXnQi2yN6
z@K|+(5{0<OPht&K87Qd=&OqFQ`DycL35k|}N7ZwG$q`eB0HG)sscUyq{t7&!T#%-4
zsy?TD$X9u@gSTuNa~zq5cF{p`juUqWrIV3A0*1W5Vl+SG8wlj9G1o1`Av1e)2RwIK
zW5E}-mUiz}b<mho7^>2hHE~W>b0>|g)Dhu<$|~>BB3r{9u-`87%%sQ}6n!}2RhTWV
z;BdNQyxE(6l7T5W+gnR4n`%|Qjo>*`&y<yFVq=p#l%vRWREszZB+Kc7-32PcJ~Vv@
zzqcsp)nA4aFVZfOR^(Yt&|@5DV{gv~{hI_j{<0)!GmDx7V;2z4Bd!)Rf3TQRH=TTK
z1PT_0!^l`p(~DF7j3~c6ufTCSCoeK92~TPkZJLbauf427sayVwz<x!dxxZFi0AF&R
zlsFwY5et7=UIY7=Bwu(UC-s?xic#9LESq!jNpeINW_bb{c$sEEtAsMk-VL{3xfUqk
zbXye#vJR&YlEME@7V%!bGE`A3vf@N|xs~(|aK0_J0A}|`OTlYyGiT_WNfU6sO@Hyd
z4mjVo4^#<%r;cQvzN&Jr43KU08+72SdABUlX1?Ee#O;(~<QtS)fYPOhDSKWNWzV-d
zvXCj8Rx{RA1T*Puo-4A+V}$|xnl6nHJ$}Y`{~F<ZpMa4g>E#$fPQW7P%stR*1}0sl
z!tf{38i9##ipTIDVqS)bU-MoE3Y@~>5j>uVB^XDgLM76Z?5+<a^_gIg7g<WiFFqMS
zRw7L(HG+g@cC8{Bk12pBO&B!-mn?otCyrUVBA}5^Q5%Cv<}7FgAzSpT5*(KyVkvi^
zpc;cwO(8S}uXMap@2_YGtuna3E=8}RP8-8Xy}vNq8fRo4gy|R;d+9?lRbW0Ohjqo<
zVDGyaBBjxHiB05Vgc_^^UcsAQ2TqcddFk70o5jE?X4e3&Y|O3-2vFO_Nq=W%J1Z3e
zU|0&P{FlcSRQoP?sjTz|Htk@iGIN(BlmUorYL>cjInNaICi2Az7|kSS6Vz$vx<9Up
z^;ZQMR-48YLX!Y&r3tt!*G7GSs+s+|Fe-?qaN`QBY-Ads(&m4~Zzk~517dy+NeHI!
zvcbSw!bziU>~opkOf=@Q7wG`1s3`!IylJqixNB3piR#`4D+`Ui%}54%8~ghd3EokG
zMsQFvtC#)B_YOTCX~lXF%PX<l-qff%<jhvqRsc)u1&{r)wFROaUdKidOP+H_LEy-v
z2&CN6z<Lm>g~Q8U%ZivN?z|!5OfC)$ljzFc)ik<|VGcSc+tx6Ic9N|bpy1s)>F%n3
zeX*0BZI&P#Zm9v<Y#gVx-RouVO5>2dXck60Ys(C_X5x`0$Z4nepGLn@!%x*7RfNCl
z-BK~Al{+)v96|0BT2llC^FY=9`VC@+lsWjHaq6bPGE%IK!KC^`_WP>mu*3iWR#L1f
za1|Prt>0<4lu{E|xe>h@s3IcD6^Lhl2m@%@SxnmB#<U1skZpV(AwTif99&-3rwOFo
zR0u$eN-_-;=H>Y7ns~(`Q5A^?I|%^BlT5>RdU&P0;{60C$U7Hcj5+521E>FiuLT5S
z3e-iwFRK55z#`njZdQc_xD$odBFu>#NSTQYtS+RVon{&Slx=7k`c#hbAD;B>u0J&C
zJXHCn=|x}b`Kp3$jnP&9Hz(m6z}u3T&5#wwv6{f!vLwwQ9a(=Y!JRppm)Og}LD@F)
z>@6X<`QyDT!JlPuD$tiWu>ZQsyCo@2%LfU2RH*9jmR4o<%ORN7;_M?phM{Uq`-h1;
zX~xv?iPLm1M~}+0EH)oJ^!EKmj%Z5*J_IDKIM({Vm{4yv{3BErT}g@Cq}QdNqQ9bv
z5L%AMND6*@P1Z*Q>z?=O$DKd?fpeT{YKn`j41zlC|9x<lriJ)CPlgQ+2c@C)d1x3$
z(l!+ybKGnFdxqH74l9Dy$KvWomM{>hv%o@h4`}d`LXsI}t@Agq^Jdmmz&zoaD81@b
z+w&%K&xiwo{0BT!jw7caHe2(t${aOQbFn>yhMb<Q<u=yqNd#p>iOGJ3tj~#Q{WsW1
z^Q)Z}15+<B@2BT0W5*BDH5j^K(ziXiFC9ZSI0;O2$wWvQxGf8~E!<DL5&Q?Jwoe+R
zU|>We_)6<VPd`|nbt5ee5u*dKjM40FK+3?@Cy47OJ0hzIEFiG*(?HB&EHj2-wDxn<
z3kqmV@*fNpa}{19NB~KgMrdi!JZ0Th9Fu9Z1ogMcJy@c9sChQYPpK~p%+xr=MW}_f
zOA&VL*S5pVLXJLovFfZ;o%`0Jm{qzOSlO|67+TUc6V}XHT7GbjJGKW{iV*}g%!vP+
zVrDJmG-x-1)v$$cpz+(+IO9~T^&7>wSj)`F9p1Y6YRT?lB`xIVOR!dd)3-Vw=Q!of
zI!-B}1sLKsQ7*rZ8EFgjx!gNTIw>j^-8bas{fs5gFgMv<^dX)%Ff(lPYG_5WH3SQe
z-U=JgCplwpQ2e#|u~iXzI#@Ks*A5%k=2Sc@qg^eyfd8M>7^io8INw%M=c?<tv~Xd!
zk|(DZ2}3JOFN~Z{Ga)Era!agqgfkbigkM_hPR4_KcAC-%QqlyyzBCa2s7tsp*EUMn
zE6iTM7|m$F<WQE*eVYph{@ul~3Fz-G5Z*N36Hbjl=G9Pq%EA$>k3$AD1NG_=ykx#Z
zP7fRS@<Yk|)8HX%dTMdfvDS@Yf|%u;;S^>nM+jLKoZ@=6H&mYmQ3<%oSY*>C-pW16
z(gfvaL?#WdAhr)=5f#b&O$O#^;Fp5*_z*@!CZhcvUKHFX!bTn1Cjy;tXu_T%qAU$7
zSN34A94~`CAik{}D08T$k^+VjxSLFL&a9w9d_fIXQb9eeRER)45q~T~U|1tgDD|ho
zh9e20x?7aL<NEp!^izWfcua}S_(?u?v7iY#r^-vYAwBgPn$q_lZd^H|U~WsNV#viy
zt-`X@v%e;umQ#@~`cp9)+nN{>iHvSG6PAuQo;DYIQnkwi1{EPRU-FP@nS}(gXZz`V
z75lugS$)<u;KtBwE&-_+b%GXEkj3(Be{V09B=dXgiOVHFY~BkZjEBoG5-|%jC3K@L
zi9Hl5LXL+2(krgxeYL2oh#+u8s`8na!dFMC)0wMGSqfDas={ibw`$54)@q`6YR*-h
zEeE66P%;EA=bz{|VyO<{XgybBxW9^sKyNK|M(R6t-l&LZ@q|=ibXAuv?IHBSC0Jc9
zhjd6;tpjpfU0Ri_NF|U;ZAGBCl@8H)Iq#RjrYxfMt^+4$nn_J(=+Ll@O4YLjDO=3Q
zC{%MPSoUO(u@TnLXr;WE2vx4_C|c;H)=FJ#EKh6-yyS(y<R)ysR?VkFkl)=@p3pB+
zCHO4i*4tNcdAt7x3mL}Zc&!dz$DhckO*`50ShC&ksv~D|2~6KX3F{t|O-qiGbSJu8
zbRK{75vUn_&T6}ct1fqj!`E87H`?!Yxq%(2tCaE(+v7E{^Azvw(907&1sXiKt+h;N
zlb$U$ZcVCGvh?!hDtt$mlB=V}JH)|&pEP%xK@T<N)I!5a>SQGQe*u~hW$#lw5e$_j
z$%6zuw)Bvf?dDgH)-$|axXv|jV3Od-EhvezxqHuFG{uG#SC`X86|Vn)`7don`$f&*
zNQN5;B5{O~D0H|xTvsyOCqcNbFx*HGi6<F}$Ra#pBojd-zGNh+AQE3<2>Wb`KQ<+Z
zbtoC@FF~xs17mG1wL4ZR2eY>wOu;^Fkri(nDwNC|7Gw?{m^uEym>_c#$ylESu}%()
zwRy};5N&jrN_!83KxcZG&hDdb8&ZZBXAMbx-^<B0-*pcOrJ#UeCS)iC409oaXfiwr
z8CC*@SjdnG7@ma;v4CMAWOx!VBtiy}38X>>(TvK348H^nSjd0{47rfuS-|ijWS9vU
zh>&60!*J54YmGtmcr9S1+*ux(HtOej*(H7s*_Mf>`FV7`T9@r8X`F2dm-o+_;%Xt}
zgEV9te8?^%2!r#B(!gst99a%?u(e}eR5wC0zVdpo;d>0nq1-k+$VYd1*H(N)I?eFd
zwIrhqJFg!mxIA~ZF7aDFI$kdhRn_fmsrvU3N27;OGQ{Tai!)V3y9Zoil8rgcF14%7
z?yQEx&UVy7u)9NGM6G}Bu~ao7w-xGIwOtnsY`DEIagitRm)y{A>Usz1I=2ypiMpzP
zkg9)!-w?S*D|O-FVZz^;x9bVRgM{6HZ6!o@c-K>~by&Um+1AqoMUy*JuisRi30|S8
z72ws8<jh_<lSJlSbR;QjL+agFyEree=-pfXawNqKV;52hCvsULRkNYlyItms7wzdT
zD}gEy;Mba^2?s-U31f3RI*kM$^!t-aSiSSgdPR}-12r@2L^0Uw7`oyxjQWuaHs=aw
zQr=l*6^Qyld026e=xO6~8fWx&wpcaEpLv(yZl%*#-E_0;+3O8w=P*T&<^7?|Hjh*q
z4ZF;pbe`lnn=ntrS=D4i@E@h%d28iD{0Dg2y;<9G;y4tn`6Fx#+dPIOn`J9Y&1`0>
zviqVELIw@C<mdv)eErHc5PN{cl9d!MludV^)92_4{AYeW-_F&wq&s?dPwxMm-Cn^U
zC<Vu`Kv?iFqD2|RuMc2}ge0Ts7=D4SXbBJa?ceXh=V}_l^qxH53c<w$qdbR_D$>B^
z2=-wZo2TFThOh@E2r7a|vz<UClnO2KVN_sG#pr6S@|Pi85hJ@H_>@XWic%ed=*0nG
zFu5Ta5rQn+d4*()a*Y&$jPHC9CX^`-RrSR9UOn=_+Olj2&F{|Pp7tO6637y<J$Ta-
z3?2+7808!rmzNMJH+(^#4Z1ZX?C^mglIL6Z0L~8pD-Q6JQz!T0M%x8?GL!J0=<%K4
zx(r5D#UakQbR;<Mn;l83{q2D5ezil!ov~|&O(jv#S$VP~IW0`Vgd4mr7%#~|UG{~~
zmV~Jb^|B*r)yodpu9qD$F_KUqH`(6{_S_Sl+*f5nc@QjK%nD*!hO(722Th^WSys(+
z&K!C;N0>#S2a*^JC!s;?fy75T)JHnnM>^U^I@&`z5e>rB14{}u8_c4;#G-w~0;=)j
zgT~az15GuCe9-twih4>)(qCk7y@B@QjrQY>_T$aj_1l5Qi^b!5k{F)VSo`6Lo6hk-
zq&*R(nczjWbue6bP4LE<3Jlo6#Dn%OL-$V;yhZ}y!<N_KuB9h#QXkGSFG`vd(VWuz
zLBsJ8l{Z1dL*e=nM585H=v8eK%qYp1kY<o^W{lrbl=ovv3n~kw@cR9qn{$LBSW#{c
z&y-PRG)%`@;XuX(CNMKc$OXb1E37%Q4nQZANxCHP^=%D*d=npp?Q56jMr~#aJ~Q>2
ztLAepH&-{)fB)P4RXqHF0CPb=RnJ%nM3qeI+A1#6+5QV)<hi*qc$9(5b=5`P$i%sq
zP5v;wWPYA@dg@Vz@C~_&6iuU5@J-&K%{2^0uP-|h%q|3wV9vHgC{U@N27U{wXpWIM
zrhYE*tWe1fm1T}zs_%P=$VH-OZatmqqzwAR^NA%Gf1p1Gn85TfR4>O6e_#wIf=P|~
zE(qzUCU2`A<NnlgTv;x1c7tK+k9~YoEj%r5Xg7<3?kw6@W#M_oI1yOd-d+!$D~?Q^
zMj#&)M|Vt~*UoIUZ46#{BtO&QYxmXk-F4hpndfFN5rl`<t=95p`**xreU!9s2+?t3
z^0t}yZ0$*XU|Aar_5u8K51?-c6*hlWI1P&$*%=bdM$;yl(&`@GDVqk`N$1H*)oug|
zU)(2NDXaVUOU$?^Cts1MjxM)PA$i)9Z@rM8w`Avw`^1tL%N5<JfezqK3;lA~OIV*+
z{s-u-?AxdpkOX+zrIp)`n=lZD)i(;KEV*20)TY`-RjW#EZ$=X{*;s&$Y!k9?UqcdY
zqIRXhD=v)Cd^6)Y{J{6k_PBMWm4p2BL{FbL>qm&9&S(KG3Zvt!Lt`n5b|`Awpglmp
z*}C&n+WPTh@%zv4rTy^}QlSl{(viur!p@&I?}%#LHI#q5yqv+}7bMo1$vBG21DcJh
zq#(Oq7b$#zkgVQJ>5WLU0xe$yonZIkh+l&hslFwHj#lgI+ocLo{91;r@LuQM|1K>t
zUhe&^xlQUlz4<4%um){QUbuMQXmn7?XX)&s$mXz#(7L7yd>&Fg&xG>}JWfTBhfG$a
z+?6?gWgxyyF)Yj8SnZ2u9U5n0knRxXAs*WU@?7^I7fC}Z2+YQ^g~iOqtOL>MOAz{i
z)e)5lgLAYHe&JkNptf@_6U~{;MMJm;=jT)LnXXsDO&iN+3=Wss=QD#gerpV2&1RyT
zCF4Vt{~~nT`YmHacXGm~rc#dy61HqA*)>|!vs1iREj~8M4JhrvcWnmd73Sbo+ID!E
zeh!v4qp)KGw%_mNiOprUmR(4|higEkh5ys_hL8S7$+>L2xEV5kD(6r3+{Br~nxI!s
z`n+jqq$1D;Nbk8W63L&Obi5$fIGYxMZ9NSa+j^23uJv->GA`$J@H#hK`_(9rC_KX^
z&WneNt>3GLPC&+J^A{x{E2M~V)eCsqwOVU)qc#+s{v%_+#vhZ|$)=NLx6O8E+b<dg
zgsm75(Zfml>nkv8gTX;BPiA7`aL&E==yi1^@Ymzb<L;5)F#Lw^9?-*=`_&cjypoa_
z<S?dW8l^DHo?*Q8f*s6o0yzRWK?R>&hu}9*6Z~Wo@Cn5uzn;r)zLPB~o;XD?f8^EA
z4clHVumAb??f3lYZxF<UBA;<O;}l}f=C_pO^7SZ{pFn;;kt_#;%Ta^#2h0(LnY}Fv
z)D&`Ic2S$%{qcEp)2^I;f!+*Y0RU#e2s424l7H;6%IZu(^nl)1loA@S5*Ft0MJ&Gt
zOiI1yU^gTEAv`pU=hb0Lx#4qW0)PIHLqIkbF4hKU904ZM6u+ay04;3L)6}0@!DoRD
z9D6e>xSjLZ&Us<yys&d#SUK-wZyH(QBOnS3ys)${?Cb|szqcch`dblHecz72HUw-P
z0>l3yi&hMTtp>tY17WLyu+$)|N1}}jp|E9`?HkgHLReEAQXa_?Z&187AZh0>I<RBv
zp@EtiuJ{o{92i+##2ZLqET0>wdKwyZ^EGc$3bp~f`o^A%!>!x`6otKC$Gp{?<0Kbl
za8%!+9F(C^Snwp@_9hvL<rXLbkn1AzYNWJtR#oIs!m5m=h>>h(;BaSjsbXFT)>L#R
ziZ=>NJy0a49s@Ocy9T7*?Ly#9o`|3^y2Tj^O2{|1By-tyWf#sGp7m%Di@M)`rwFyX
zt`6>WHd^cW-t^-XQ^rBH3$h^T4I>kh-iR_F85kh?EbV@;kM4C#1BwiG+XU-Sgm;vP
z(wkHr1H>6&7A&nf-2mP0*9P!vk(O(MIl<}pFrZi@D8o5EF54y?bxV-)uv}+a9QRdy
zuGJ6*=+5kKf^Ugv0H0S29)%VToVH{!I!m4%1<KH&g<2KdYA#hsr;U_B2AXt-l`6`#
z1$qNW8F)HsUdMso<o2UIR8%2t8C5ZJ$Uv3T>%yd|__*~@g`LX(sxyW@t9BX^^$VYd
zM8Xl#P&w3;sb8NnWEv=vnld?y4m*oZIEzj=i%z(TZm`U1N;Od9F{Bdiyb{j58ZOD2
zat)RB47mmiwWeGSW5h0F9I9d(atVie35R+Khk6NjdYvf%8<Gi!WarAlhHSzm+xcR#
z5nm^7He;~Ot7i5Ym6QCgS7YYm+2!f(QWesXT^ZDhP!$vHw_(TaqcX4~sp7Sm$y$P9
zK^dVsFgXkF@6lA-Mas3H-HSLn(D}h?ObU(*fi%$mBtg$&T`L4qjIspa6cmz(;vH`4
zm}*pEN@%QOdoGF=MC-s{cK$GA>ebH$T0@R^2xR+F(HJpnj%cqh+14!MSEE7)SECN5
zK6Tlf)<FZ-7#hBnHE2Ajg!yGXCRv7J?oICtPVOtkIH3zH{{V+w`=~P~W%0Hj_h+1t
zhKn7dJgCBNURvM&^k3lD?JWEPLdi&Ce}`iK2a4<Xj+O7#DyY<Iob&V=MaiS;4S4OZ
zy+7F<+};4$(GHv)wi8cGWjfzeNXdePk}_CUzpAIk*z^L%#=E6|5wSbx8XZY}ohT2d
zf#>2&b3R{UR%Y;{dTwk4R!XYd2`^zMTvqdV%gXGsW7TYAMEVn_x~|csBkoQ<?YI`s
z;_9{Im13f!r`5GRYtPfA@-+yXnP;VCMb-CP7pwz1kI)86{bHV=6pBppH=oVljg4pZ
z>k&GV#7<}jG)XL1ELYh~s&>ObN3+!Q-hhsgjmG5w^@VqT-qM-XHri*_I$_|;gi%jh
zoiJW5W2ionIWeStDy%nhwik)y*UZ+5W$QGSUgKvPk?3hOa<1&-ysTI9y1!bdIyFm2
zxZF)-J;ieU^YU}_ab7OILCWR+e)T#<uZ;zwcqXgY9>ksB!v;!ww|iojPMz-2Q^oUM
zJt3$`wa_LNWA<V6q+zB(sO!WXo9M+LER*Xq<MZ8~)|)iEUuh!Y`)45k(U|zKH{na_
z>hpgW!4s8_7Mufk+Rc<}Z-OushO>Vph+IAj;_RYinJ#hra#CuIL~geAlKuKoojMjS
z8Xa3m2r21%p1$YpffwX$M%)312ixFrNQVRDc0o~6mJo<AVTtMqTL)tp2+DA1@U_oV
z9H(x!_yC9PEAT{xfH}uu=wq@hQ!-CVyK1F&5T$h@Q?AvXMo}iolE!1fD2|XP4v)i^
z-JbpSzI}?uub`2HQB9W71;c^h21&w@5}~_0LF3t8$lB{n7^SXG_sidmnet8}B=!yp
ztLwj8T~YfiiID7rNZ3z1ta<hm<hC4>(Ik^Jrj+BdpxxIYv(%w;dd=p^>>iZSSWVEJ
zZ<JYlqb}yjkDBJ2ha0p@cCE-F{6`kqs5C`>V@Ov-i8Ku*4JrcpsGW%&G^258#RcXI
zZ6IIr>p12-=ZbM+-ZcpQd=OeT{$D^G@<><2)4W$aabY}<T$@pKB-A{Hq5#Bn3tV77
zq<euW@=%2a-#{yMGo{W~xKPO{+9XP?XUs%^LwA+BDqUrJP9<u4$=5d&GA=B1>JX1_
zs`d%d%JX|-MtItb5ArK>E;cu<$SW_mj4(_pi8nMZ&C5*APf3l>Oi9fvF*M37j<3i}
ji7zfmEGl7)C#c>Osy;bCuOu_CG!+2k(Ii{|000005`aEd

literal 0
HcmV?d00001

diff --git a/nora_ssh/default_14694219338466419108_0_16036.profraw b/nora_ssh/default_14694219338466419108_0_16036.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..5b03e1535b8211e4db699142054a8af3ac9dd821
GIT binary patch
literal 486824
zcmbT<c{J4j-}rxfBbA}ZR<_b0Ybq_)!k{ummXN(9Ta+k!XcC%ik!&HdhmfVLk*E=6
zDUre`NtU9L-|zZf@8|nE*Xwhxb6)4+A1&|q?L1%i$7`KIAzr6EygXf3xS0O?L+qc=
zT)hAM;-631Qvdt+cz^d`3-kZ`Pe(fbuKd@BSocC0bI8g{KV|gN-@yM=SpNB=4gY*r
z9=!D2s`KslxC@;Tx(_vjmr_^V|F6Fi_%^~6p<wyEu#>_)8{PL7`TzWH|K}&<qyJ#|
zZb2JiedKNA<o&Zw^!NYQXRK5Hw$Os(yUK6mcmkd2OQsxL^P@G$Q3X0mT2B%a|LSlc
zhY9Gc6&bjwa`>@M>ra{KpBE|=+MoUR9RIH_=+D{EFaG%)DIB#!UgM@Lax#EUjX>TU
z&3x%Fa(sbKg`K4D<%DD#<WPW)oEEeDGxf|E<dA?4g_zD?#{D3zxMtm3#n7l~CY%ld
z)A<cgik*RxvoUfO+wsi{>kNkmXUvJ1>mp|c=+p_A>|G@yoq`+&(D~J;xPEl$=}Y8{
zKpjb0sRF-10Z})rg(=?)di^*ZBBrwxt6bGWSb!IDh&bnkbuMo!DlB~2whB39pc9`G
zUU2e|Nf&a0fsWzT>?_NQm43*n20CojXP-~1eh<zOUaI40GfJ4j>5wp;H%k}3HT-!v
z4>=5+=P|4ku2bjN{!Ud9IU~>U9T!;V$-C0F0(#Xd<n(vK9H#PBG+Cole8{19!JMu7
zyCr?NcSn7Ds-K{AR_8<e3w#a_rgQhh$6OmP9}GYa;U&ybo%;OP%9OtpIb@(yCGGoV
z?KPcu2`qnYO#5Vcs5l+$b*FRS(NxGU2PWj$0v)q5jvWmn^>xTm1v;@3;(T!%U!6k^
z5$NzT_Hk71IoT9jG=Ef=FKjIX=iIS<szn@RbPi8<Ag2N7*lyBaQi<HT3pq(Zr_e#i
z?Q7$oOyqb1om&M5Ho0=;D<FpqbdH)ZLWPFfLvI_%X<Yx9dPNMU!;Lw<)@_u1`QfeX
zdE`)lPL1`|i5Tng732g1o!2|xEwQ>>Fh@=)(4nfBtvxv5CX1XApkt*h8O_IOzRjz#
z{;6qiyb|8y0(&1G_A51VZm!_~a{6(u2kSUeL;Zd%R=h(_2GB8BrTp=tnXDgjoPiDp
zZ|f6!%ZG5}C<2}OuoFXPmKkrUI{Ye|{F?I@ab9<@=ZzPRa~#Zp+Z2$4_xgo(CS-Rc
z4MwrPK~5fUJ=_X2opM#Q1?BL2CC-u#CBZnI|9(3CpM$mOw8emS?k;oWXab$X=^xca
zEYA)ihY9Fh%{X*U(&R}2avE^nZ(z5pocm5L<Hriy5wC<3f7YH03dZTM{!g0!_p7qa
z<@vKqdY6$y0Xo6&ay@Uc+nz>_7|{6@D?6^TmiISuW^mruVYf>*gB<8SOkRbY2B71u
z(|cJu_td$l$7L6eiu2r};dHR`5*8yRH+byyKn?}ysD4&I(f!rd0y#vW<NjL3*=y&q
z#=q_o>>|n1*XTI!!?EYpK6A3r#MOJ^$Vmb^Up@zIJ=?zTGjeQ!P91Z-!bIG{Z{(1G
zPD}ihq3y1@-N?cFyo2qd5h(j+ie#%RaawMFHnBe!@ADUSf6mMG;${`fl|~K~=kpiV
zc_94hQdM8Q0dmZN&h7pWE}MIzwju}b>m=CqOyAVn@<OLc4LNvU-@rP|n|!{fzD-c#
z%FleSutS>Ij`MW@5zP7UOTsOlz(V<0<k;fugLO)>H?QAOwpkN7i$LejOl5wKPS{iA
z&~Wb0*!3Ks8oy)p2-<)g63+7m)``y9YkBn4>Mch0R}}P&L&BlwRiO`SzhCfIOhyjg
z^D1`kg=_9k2KV)mkz<Q<yRgoK#B1HEl7_$7$b^k{U*4)J;&iabd#m*sPXA}GJ|brk
z=e)3v{=unj>*A&}k<$Ql<mFcDdN^ALBZmrf<TNk*c2u~u>@|BW?Qgt^5C!P$zt*Im
zE|<6uIRZdums?WVGu5M;ku!qx_`-HBV|4I~zP+4{oIIejPSh_~Ev$Vtay)^~=&c%-
z>m0TEK?T!WJr9>us^WCmG3T-OIuy&owu~*v5db=_KLa23@Yp{@4&L)Kc0D<6TVnk@
zsH4ci`#LSw(eZBPXmgb1Mou-(^E}qs>*MLV;cYQX)yEPQkt^e)NjM$seO+HA?LgL7
zxf{qa2RfCH?Uv27w%8&^0O+jEb<%Qer(Zx$e;dBn{jl5BL+z`-@py<IIY~h0n?{X&
zjaD?tbgQqfnn&asbDR$L{OmEvdsJV`kcJ!*(9w<_lCd5(uSU+|Q+$1}>q&QYyV%ZP
zzm1%Bprg+nlqR9M<d2*rpc5<GXL60FB<(=q({>lWd!x=c9qjq=R{SMu%PH^M$Wa73
z<zG5ft{wTzK+a+-zRuY7T-ib~GBm!&xM`_+H$J_=y8-Alxu(ZG-{Rha94gQWf8>`W
z_*YvRITWDtOEr3~)+8zxIRZduOs%8YE;`Z>IU_Bw&T*TppQr|PK2`kv!SvhM6RA9)
z^I2nJYf`}KDCBqoo!~_!%d@pr9>`GzI?DzA4b;$>2IMdSoy`;0-K*F=smN(>hILkK
zeDyY^W8uxM5|+7<)=767P6vDbAzzS74?jPmj2v5_6DL3B7{BMeBytpij=^+LYSAe+
z)A5Jaaz`D^PBY<ju*bXKw=P0*CW8+-?M<-GW7BiG<;ObhkwXJI$&NNLvxmfYBF7x)
zoHzA5a#3$zGjha$4q;NB!#E{RZ*5d`&FU8=W{gHypErVc#b4~#GeS-&&|$<x^jP-E
z+(3>m(0Lk5(>goQvjsVtKqsXrzGCtFff?iwfDZL4|Nh~V%p1>ddu7)3sb`Mf0P8$%
zSthiZe%%>4NkHc~bN5KOt-cd-Y=KTuoKay#;B9W?kbq96TGWyK7kUhlGxG%2r{)<!
zomF(tjcsp~)NK?qr>lXE$Jv;aCx6;nkrNDb<~xt_itnlzM-Cb2BwX)#m2$a>fgB>x
zS#!3+Hr!dZ2RZ$ZVV&P82L6qb(3b0eBx(61ru%gUPKN{YT)9nhoUFP#D*!oEsH2@*
ztzBL*jvP;*v#ep!A!UB(Aacy1j+Ii>F3z%dAGrus=fAGdHE}xF=Sq#2E;IdClG~6Y
z26T45H#TkIYN|jE6VMs?@qYJC{}vXKkdoYj?ZT6hdVKp2_I|^M#IXK-s9+OvN`a1q
z@NN#rhtyo;1Opu{#-5+0iLV_6BI_!So}F%>03G6|7XkJ{Z)wO813G>}t#`h1-IPVn
zOdYIq>fa2mle23Ck<$Ql);E*;E2Xo8kV6AH8M%AYqt0H+O8oTTu(yj0pDj)YdtYZd
z!P1pNh-O9(3Frjam_KG~-dKg4nOc0EvFk}6d+s*+C&UXm)j)@sb*Y*C!m8EC2?jc$
z5@w^8BV86L>*VT&Chk5W1062$>5XcE%U_X01Uh@i+U>LTShpjmzXsOX^T8gE#9MX6
z$jJaYV<B6dlO~qP$Z-Zb9U|;WHr<x3uEzamNWNx%ia=+-Qw<;a%%%OvS$qWR)BHE?
z#JVU;6XY}iowv8uI{VM8-+~+}&`Al24yiGl9YqcW=+OALy(kOy$X&9Pm3d~Uyexpz
z!Cp^))n|2w+r802&SEvb&i~;odz^nA*?VoTQKR*$OS!auoDTLnNdD0HdLiq{Aae46
zPV!{YnZq4{tC8aibVhCrPO=0UbR&lhbcR&!3B5bJ+6XxUKxf3GLp(PB+Qv6=8H8U3
zQ{#*(eDlJ-{;X15cG}@Yq%d;wfKG<+l+rl8E)qG;K<Dwy*PG``7T7yGLXW;PTzi{@
z)4}eCH)q+rxO>LmA%_5T*vi5;sV_O%BZpCmuQPT%Q9_Bo#A6opHY;jW?cM8I*N)S{
zUQff`Oi#DRY~GF>8ql#?G8`XL&Xz!qIncS);S*!+^^SlXF`)BoU99GDuhZ+1!+40V
zGq#V1)Xv=@##yc@qKjO7&Zdo}I34V9At7UK&GR^h4>_Jdhv2=S*L6(z0df?9&ig`J
zRk@Sp4#=6Qz}E-6T?I22kG<q^*?^o<pfe^O+$S7c6V@7#P|LHazugn3gZ(;2QK@*r
zqfa|3kwXSL0c$qNUu9#LL5>*ES&}<L*l2su1UZZ4_&Q^^YwE}k|E~=>A;_Tvol3$-
zvSDFm#0SG$H=gaEr03yuu*XH}?%1Nk`y4+Z#}nvG-9Kf~{P_3~a#Vqid1Y|pW-F@)
z$YBCHiF+PpZVco1MoxPfzIkE$NIgF+$7J1PQ<kvHvi;IJVH!>cd*4F6_`yfdzwrxl
zY=KTk!%M%+Z}0q(qX={~Jb#O~8T_(F4inH3Dhp4v<(r;F4*dbX&e%S=bY`ETR~O!B
zN=6D@SD%#206OtCU!RrQKe~z>PoQJB@AdXyH!S&(qX~2jJaSK!vDe8WhX{0pj%qw@
zGwLo!&PXY&GjANb;OaO-_EtYJG2e7=%Tk;U_PF43{aI^5WiLgJFVNZW>E(Jm#upCc
zXaXHI!Ce)8XS~XhLjXFLN7P&;cPMishhBoOGq#USsyAVmLJj9{n+FGZmIlI-a5~uI
zB2}^5yF2w{GIE@OP6XjhU#LM38*)^E&LyjD&9nMpZpa}3orLY>mwPIj$B@%sjIT4c
zPqaa0#aP4F(wD=H-n<fF(|I@@?0xvws2au=5$XVPs6eOoYsqHCn-M>d;|z3I>)6=X
zzdv|?-}H#X?kuylWSkE6eq&90xnklzr<=$T13JP}W9y}#Y@i`$u?XM1u<P0N?vbmI
z{lEhY8t2N1JF>oXoX#rD`ygMwCHqO=y}2DZ4M3-M-NoEhmn6E7Qwnqj<lMXaB!17Y
z?JCm#rgQIG22KZi-eB=MJFv9cw-`CjKxeh`=el?+MONe}0v$^0##;xuvZwC}Hs;L?
zh|4b);+s46`1)wGOFx-FYD7*y(4jBt6y~2LEg`2G=p-E5w)w|}i?5KA1azuc>z->T
zeZP+!U!c=$XxJAt!oQ^5OJ9*lNk3zb)4}dPCE7{Eq)N7U<cI+sTKMl%dM`x-k;5p!
zH+SrM&S)$5+_LjZMNTQud6c1e>O#p4Y2^3<odsJzPS#W6;`27U{<L(5ebWRw;esb*
zLvAy#Lk<Dxv{z0`I8}?*B8Q$2>-^=fVoapvF>~Z30iBasO@Gd0Mr0z#7U*QNdDB|`
zdfzJ@>Y)3S$=Q)`I@s$4N0ZYVzR8#i$YBCHglYe@4|Xa0kkfx3UuW!kWZInT8?4I0
zky8qEEQyW72O1@LkwXPKlLzycIOJUhjkX^<#T1veU<-8OnK-jPmp5NVjw;ZZ+EDAh
zwR+uq<Pd?5i%7S}xUlgj<S_DJ^K#r4FnMM)e*`%VK<9~}@>|+V^Q4Tsf{R8kAKgmA
z>0o~j%&o#bABTJ;Zz6{VbT(eC-O^<FHw`&dprfu;X`1qWT?=x8fzDgQ&lRfW#X)P8
ztqSYiE?x1(>0qxHoc2E3SIf%uAx9JF%+_oa^%VIvf*b<SVL1Q%aOzInBy#Av`1V8W
zc2zQ;4H)<;8-|=DpralclBJNYX0H5Ndf?rq7I#~m4)(dJNAmOz;R737kfR86Mnc}Z
z^X=@YKn@eo@fcG#i0aPS<6XCY;e(vGH~k*I&e-j`bE_|6YfSzP<YWMy=g|WDtwbk;
zkmCt-?0&~H&AN{0AV(AETwT3+>$MT?x5yy^ot1%DwiBZQ22u&l1wO-~CL=lcI%BVc
z$w%FDL`09@K~6Q$;ZERH;CY_>2RSsLQ|)`^$CQ{~0dkyy&f%a18N)ktSLA2{og?H6
z`l9;t-KHz|os?)@0s=T4?Ed`Puh8_<ssmlfVPxZ*7uIRn;rixA>2wQns)0^Vy{zMX
z;iHnsp#q(PjJ~pWBI7TSV-9r4ieKM^MdW`NK6vZ5ch3`k5>5wuexASYmRnGCdjoQ2
zvha1rI$I-JL)r?@#UrO0=*S)VZl!hD)Dt<uKqq&$^7<dbozuu61D%KcbAb+9p7s97
z3mx7m{H%b8)4}eCANTx;X?V-di=2_W_&Q@9DMRz&-Xxj<a!P?tf<((Y&*C4N$O#5I
z6WKPyEwY8`$e{q8u{H9cbGtV9mh3oxdV9h#c`=+0_WUd_tT*Po+Ws7J7Blg6#yZc7
z_#XLWU0*^D9q7;+zb72)U2BS*JfQPQAckYTV{s31f`N{VMR+>X&hHj)oxiQFC3fhT
z<8-jcd;X8!m7n&dy~q&*IyaRzemt>Re-Sy141Dv#uE*P6c4b`y;}>#DfsURr-TyLk
zkSB6{fzEtdsnVX*`tN_)@;?OT@Cs-G9cnj&;^5Y)jvNBed9m4Yr$^7s7;@<8u+Gt2
zuZm|3XO|);3FuI6ZBFm&J-P=uwm|1kW0tm??@>Fwo*0jxIf^tA(4qWUd%@-Fu{h++
zq`~@>Z@HvZwp(@;a;kxjFg@3~-fHw3a)N=*uJ<`b$s08FkV6JK;>$#p3Hz%m8;Hi-
zf6^4ih(Jf+*K&2su`MOY=}(1qHWt{geVY8B200l($7Zt5*NOM`Hsm-1omA_(S@p1A
zddN`(I;5=!j@fiYZ&WVk?G<n-5Lvu~uMhS<VKCT6!`M5T9Xahlr)ADgow@b57IKn+
z&STY<o{6r5_mJZZbaq!>G-o{Cm5m%#pmXrRhU#_0A@fmg-OuHtC{GDE9qe^y`kVTA
zZ_eI3$f2j;n-|vMs+qf-60*1zIY~gLvP0J<tVCA?IkrGYMTW~!Z0`I^<dA@l@ayMR
zq$ZP8BRkzwew}WLGq>^e!QPJ@9b8wrt2KB%a@v8;3FXG9stMac<YWMy`+ZL5Z+N`g
zha6v^WA1Y9t-$%uj>w?^9i!_)>Q_1fy2>T1Vgsl5*OGuvn3?VqpUz=D<S+r9(}$e<
ziR&K^Bd0$ZHutRiUb~~;^j0IM6zGIWB?Ym$IsNNUflheDjF6+jMy@P-SL00@YY4VD
z9qjQQthvAWrj-yKIV7ONn^?KKxasM3<jf@D>x^BGMz@3r^Ik(|<WvKlpZ@Nyx|EoI
z*AonMVmw5;4qy4MVHoJOe!azu+hm*$_Bv>lpLSO>FMBm|1b|MV_Se>pC%rt7!?=a7
zGj=^@Kf6-c?3Y@RQw?;cD}2Az6CNEy4i)H(eGe{*5agjqu2sCYM_JF<9Ozgl8&r$l
zo@GW33Fz?twEJb0xGN1gi;1w#4fex4e&@wvkkbxy{(RZeq{J`Og`6ayL(nrRiyvt^
zUDpsAOZeb@-x;TaJx+_bh1mDBS6@JmBG54&5GjZyahM=yF#%s^?0SqycYn-wQ;oRl
z*zY!RH>ow?bg<X=8rw=G3!Shg<Rk$d0j>LamFe+I$ngX^haGocJ@|}+qgy0eT=BWE
z3>l|`ecw~&!|%l}PoLW(M-%Auo>uhaOAA&)jw;YmiYnjQ5$3ulJL`l=d7GQQB2EW8
z_d|&*tGQOQJwwi7JZ%4Ybz(x$ant>~$Y}sNd&e3>1wx;EQr)%e%rj$un2OWEe!bS)
z@4AO{dCNkO;|z3M#LTw-<l%jf95T>3L@K)eOl95<IV7O-_zm^`X}!Q6<Pd<)f>#zT
zIKCjKu03^GUWv5Kh{HE`Y-h2JZ(CM0T)dFe4s_1h9pwDYkWE5P9?)55X<hy9hMZ5^
zVnu~z=HCS>P6zw_MBd}74t{6$haraybR<Wkw$~_F)FFoebaaT!;mocnhRA7;#WyeP
zc4=+BWRuaVcmX+7pi{)?%=!^~uPn!Y=i7knjWT4QQ)cMw6?u<!2ss3xLvHX$`J?XO
zjGXqHus##^W7+I4czuyW1v-WjJgdH(BxNFp40PCo`EvtYp0QUZf35vCa3F?&)4_hd
zamcB<@9(SjdLn0$hOZCSVSZff6qk4~6*&x`6HON*37_Wpgq(h$Q&B6`^-^;4OmA3T
zj?wkpr|mc$>~WF3?Mm*`q<5c@Lj^hlhD4@|?jHWgAp@PE82KdY)0_<C5P*)q0@Wkq
z&{+@UwBNutcWj?~e_diJ<i^nJZ0gJpt?7zXpySGN(D4SbTm(5}pmXAM&ZbS90#lJg
z06OMUJ9<~!W@;d(JqFf?AUkkbmMG<q94gRBNvOU!{$nLHPcesOqBcN>jMKqBpRQfd
zIsb?;sE8Z^pkvY$|JLdI`wZkTqVe^?uE*)_@9EuinQO?Y20C~6kMu3Q2+Bnc73jDy
z%_tS`wpn@TBi5qT^d-+6r-MB%;y#;CH@77bkRt$eK4?A;Fym_LKu&)YzRuY7ly6V0
zJC&W(*IJl!V6LPmDha29eU1~j`C;p+ZAveY;|X+1LL_eQIVaAA95T=uSh*MRv*l<@
z?G|s}9+5I8F`N!|Kcp&u<=gl3k|c6wuH);BbvC;6I-2*L<3dgY(6L#n@M>LUcnvu;
zpc7&`DDIu~`xJ6)fsV7B_6E_77gFNaf3$qrnQW$r)4}dP3XWUd9!t}TkV61EaW$#I
z;d^~tkuwsBZ(i8-JPSDdQ)=7bG2~PO9gW88v+EnLlJ1O)7%3fQ)1u*Yu+QCvW&*Pm
zSIKhZm;)V>znSEhWOEJVhyk4x&dXxva&?l(VO+!48M|FcQ5xZ!w4`Q{Qwnr?t6EcI
z?iEP&-{U^yA7gmQ7wFu~>~`UPyLbdSnn0(fd#v^s+q$F3Apo7ZX9@ie^1^G7L#M(z
zm+{icEgwt_kdp*-RHn)+)K>1iD->nrqE0oL*#aHMRryVdhpuf#4hiUpZ#!taI1^fg
zoSCbzK36Ss*BBW$b|R-5=p5r+`>oP+eH(Iufli{sDcYk-s!?v)&^-xiJ0BURgT3yk
z%qymzGpD>qjsVbc;I;mE#IHFOIgAK=ow4h=ZLjH(_-V@}<WvJ4qsLif>1Q_b$e{wA
z#u7QPxtrVOeS(iX;9KWoZ;sQ!{+v<{j=!JTncoB=M-%9X36G_xn_gr_4hiVU`H$)K
zxqPlf4iV_A>Qi8S&tY{BIg8===8o-isAKfb-L)oFR|I>~8G38OM{qjW>xD#o@EWC6
zgObR}13Eo_UoVCw+)6->C(vQp+ZnutuZxZxRiHC?U@&T?>^LWKn1D`LQjGk9+TLUL
zB)p9MYrMC%hvAzS_Bh>jVtZWjf`B}7l7P;OmV*bj@!Llr#~J8cVELl^+k+a6995t*
zewv;5Z0)K%<Pd<4_ko`QJ}REyEZ8~|q^;iN^k2c(8M{Bn6@PtI#CFFLIT=9b%96p(
zq${7v$Z-ZbY0YMmbAQaj#i@<1?Nud56mdG({paHyzL0C5pIt=`6VN$#eap9yJ15^D
zhaQTrGj=^I+n&8!y)YHV?R2eFqg*{L1L!;|u)c80(47Z4o<Qg0F~NNcCkvdAqX~5Q
zu2G%ThM#V|Ev8O9L<-(a#OYx7LpG_pkgW8mI^^_+;OmTaBr|T5vfXrlft(DWquym&
zT=-~@0&<*zPIawA2RHYTQsgKCoruoXaKg#Q)#nrS%fd%2d=`W8^}+6kRiz}A(sd`e
zk<$)z=(Vcrvs@&_k&^^;THgonDgI`70y)k=M`u^sQSvfL5;>|sXTzh{9>>q#dgNLs
zQTofh;U)p6gMHsYK$c^f`O$$M<SYi^n-|t8|1%pJw0unlISin)ot99vV3JvkoPMCQ
zI{!>_`s3tm<g`Pb;~@{%-}i4S{q^kiV9IHgYMc&sf0nHmeXTYiC4w9(&>6hY=D$Ai
zv<h;}fetY(izSODT#(%4z+oJ4HjsqV!M;x|AgMw8B-d4s90JfWvN>_}?dRTF<S+v9
z?T6U)OmIw||88flV7!ZI=!L`awsxS?K5ZEDK<<<va`J#qbyVMBlPt3&<WPZ5fWg~P
z!`jT}$Z-Zbak{yoUy3PK$RPtANtx^3;YFHCtM0k`D4wjeCE;|iudDYjscqqAU3&~U
zi~xLd$2z3vf8Kul!8eGUJfQQib>6#JIiUbK&Om3*Ye1_b=DvvIjXR2evNu+ca5~ug
z1aayUvGmwKH<2^rkFO8bd30K6s*JU*6*<*FhZt|T+TP=S9dd$!j_*L3TyJr41#-wh
z=cbd)*smSq7ar)a^Riv#b|B((u-7j|Qsk#UM&7N+VFEg0w>$j5I$Qrh&dg<e^TMuY
zU;R7zY_73(<ct8FQFdio)5h2&<j{dmmkwbd!{Jt=bJFCxP5S1`4LBX_bx_ja?!Zc8
zdj@i7K&MySj(oTEn;CL!fldJ1?AKG3B{RrT1UgYEwGHQtdm}HET&}Geavop;I%N0a
zU9V^J<dH+agm3@Bc4m5Asb}t&&xV`~ptEE!rflo;u^2g?K<E3%IYHJMrsv4f1Uhz?
zhQ3iYGHj1D9rUbt&}TygI=3#Se%rHdPZe@T{9v8ko6A1b{;=jmPASkStSeD)ANHz8
zPB75<=5T{<!Q0P+9175BaEz4qKDfxgvcb{vuCyAP7|=0E$<#f!TF(SIGrq9S`n}nv
zydldh$Y}sN*VJPy70!JvL=Fw;$otLynP`6d`#68j%T@aO!fb)gb&i*<17jpr<R}82
z*|d@K*{Y(h$YBCHokzHI8`NdRkwd=-n^%=H&44R^#sE1PKxc6?r#CJ6Oks3kFB6}E
ziHRpp2Ydfhtvq^q#Uw}pIjTTsBgg#OZ_%xl$YBCHlWY12d$l>%BB$L4UuW!gjZTcu
zk26BukwXJIA;0;O-c)dm{0c6X)z1;`Fvsa&uRHsG-#*#CDwu{G63}T)R2y_$W3(SR
zix=?q!LH~1X!?APcJ&72v;!Swlao|Nmd3y9Ndh_{W`nl+%y#?l3g<SjZ~An_8K;At
zyG@sg=GrBr0OTkFoz=tS;5QD<+Q?ZvkFPU!J&|gcWBNlx^^wy6biV1II~=f*#f}^*
z(21+pwYZr^>o~Ui)`#M`FkuQ#2fP2we@yeyH9f^Zju_A>T8z<rLd~8>&Wty{&e-+X
zk3PNe$gGGmW+cL6+?wmv0CZk6b}Q<qiiIMF26Rq;8oStkvRn^2wm?V4jZn_*q&e)_
zS8m;-n)gQ$=<G7dB5d-Hx`G@gpp$cug=vT1$_jGmUa)zY{)pVcZ+Gw<ax#Dp#ngt^
z^X=gU<ah#|9Xs^$_O2=yJ5=C&FEb+Tn<h>N`*mNl!51gKTz_#MIRZe(-|+lctbfKS
z<jkDI*BQH>hm}mZj#V{xkkbxyHhej~!Sr?(rIPb!S;z=mX$DRQdz`Xg`E66Ws$Ca3
zo<PTP{RQr;SMq9*qX~3$=absmW(tYOAp)I01GN#APK{H@8S%t7FKiz!r;2ABvc^#X
z)FKWkX)c3OoDTN7<I6TpP`%J8j2vH}vnTV$Y^F9_8FDm%j(_oIw&%L394GrUe;k=t
z`a!_yVEfD`Z56jZbB%zUeh*mZMw+92owZLra`J#qnx|c@f8Eec<oE&|gF8!W9JoH0
zB8Logd_4E0JeXVKvtzqUf0StBVF8>DcK<1*M)@VX9oUSV5qEr@vCdS=xQ%o6i!;c{
z13IsxG!7Zwbl+Q-`kA`;E_ucir-R*pZp2yo|K_sRLyjiUiBY#sRP~rWh8!Z$;n{8c
zCtAAM^Wvs*)-zvuPmj3a>x|tlcI7qc+AFG|$SDOnX*WneU9IllLQXKyS*hcv2Iy&3
zy%-hAdd>O9o&t2f>U#O)rjYEBBL;K^^kP##f6j74&WtOpbNMvC#nDHWEyiB{!e_}<
z`3*Q7?ANnx&VCpe$(s;?oIIe@_#!D#R&AygIW(XXB)+fx$o4AP%v+5Cb)ufXd~rJ1
z{V;Ly)xJYahgXn820FD*25Vyy?U|4x0CbA-t@&)8H0mOUaTYdrw*<$hjvszWA*UMX
zl%8GiynXq-Ys=@(-K%Oz1S-%;6W{mYoc+f&$T0^x`;K(@gls8sK@JJ%?00<hv-+>p
zHRLS1z&f8uk>_OMaa+^3JVnWTbn-<zP6zvb_ffNbZQ?`Ul8}=Jbk^(=-udH1UK(<!
zK!>zL%w=py;tq10fsRvP&q{#C_Aum-feu^or=P5&2>~n_*R>xM#`Kebj`Ws>%j=G&
z)*^=hbV_+HUJXua&P5L648HvbJ9iyc?lLK|N&#}(feu4v=ZnLuu4^JE59oNeY`-m?
zzQgu*Y=-5y+hhwBr-MDO3a1o)*KbeBK#n=k;p&f<yOYgx4LKyB^KA12A>GBE=4MJX
zRkb{FanTvyys+DK<Q@;%qATqLa@v8;#qg>w&T~sq$Vmb^`9qxURC{lh*#w2b%Zs~B
zoN+qX=k9?w0R*oviM7bl1Uj58`bufpGMkVi0CYs2*D4Z^WoZOW=AHGI@Od|L8aA)l
z5+1wJ&rU1IX#hIbH6zN~>UT6DhX!=+bX?0zwA<K)99y8Hx_|K0lW{jw<R}6iw;$U$
zMnX5`vn2~OXPjAonhB?aeQr{i{kdt-<L(r4+E3w|7uMn5m2+71`44gA(14DE!pd`*
zp)NDzm;;@aD~8K`3HnEoBL;MCe(D}!rLXZ@+0L^6TkDmB3@3bju;(AX4rPkbp8_@H
zR0AE)RQ=2M+1Q>UhYEB~e6cuue)GA}r4v?WG97AV=0K-qAwOF$^oJXANI=K!Nugna
z3E@6+79C-ohvtsE?V#j4$kTleJ!5G++m6%0?$6s;{rQ{sxtk-026X=Nt&bSyzi|&a
z=0Ha@nk3{_mA{M}F`!fMm%p=+*C`u03<rFjv3(wh_6zqay|#)}5qx>oOYcf4(AgW?
zAg|0En2sD@pu^<fCpnkCrye<)KxcJA??_J9u_`S}qyqaK=@$W~gFW5_e;=u5cQ%zr
zPQN|A&R8cZ$9PO-lTR{o@_^3G$M%oUEIL=IeJ^omT}o^A#pz)0H<X&zb4>eO`hpw^
z&{4f^CHh=c@g{OeK<D|(PPMBWE=jmPXH5PMl5}GNIsw;|cD}u!d>c9acKGIn?Q_D)
z;lT-q+;QZT0-fkwIU-r_`*!3|fsXC5)eFn@_p6X&3v~P~cxSuI8>~9ZcEmDUlMkrk
zbg=vLhUOP}?+iW8B8LEUgwBnU-Swi@A*bIK-@LHv;c%UDUq@JVYVl~qQ)PL7wmhKI
zJvzY<8frg-9ABUl)I0gDDWhx!Ib@(ydcoq{Pc7S4<Ol$rd2g-?E5pg#n!{OUp0%ux
z88)!aFV+m*JK|E5jht$rL-|OHXiXIgM-CO}<k7x+2k+Xu_xM)Vzl>D6ojFbidma29
zvh9mX2-7;`hyfjiu6BiC8R|H47$@;{#;#|LU$%2*@CXZXN`X#YV(0T?nSa%g;|p|p
zoK7A;_%7CZ%+#65#iUD16Q_ecPE+)psyB8oA43ii=)|t-+3rq?nLy5nHNMW+^~5`=
z8$H~&z=@nvptDyrzV_YiDs|)p10A2NRG&M7!Ex?qYn!VJC*mnM9qje1BEz&xdiRlR
z<dA?44{sPv^Frewa+rY5W{-mgMfoSokkfC4Z(i8#+8ystc(wV=2y#k+&gBICkCQ?9
zDst!JB2DL?>QQkz*zcEFM>1~t)$#2Ca>zi3W%fY%5AMla<Pd;PZ#PFF-$P?Ea@sBN
zb;fQN+tiKenN$-)<WPZ5%<VOMWbf5yA%_ffte$N+fA_BHPvj7Qj>q4SPr>m+p2%rG
z0qZlKAklP^>~jw}RG<?$q@ff(X{wAIGSJc8z2*Dy@cPZjApo6<{M-}Ut&UwrPP+xH
zPmxZ4mT95fIpk1*jy9#J%Wt8l0y$)$qvm!ngut#li5vpZd3EZNn%$pg>d0v~hxL(}
zU*RLXeq@0hD$uE^cpxyqF};W!GSI0Tv!HAF?bJdJ0qATSQob0xC_8zd((hQbgVV9y
z4Aw_3JTRp)?R`SZIy>Gtt1Krf(AhoZs-M&2SETg*_IsA(Gu>pML+bGonHHkk%8h@1
z`;Z<WLjXErZ+Yl08Ek7m^>XD?8<W`EO<{fZdHry^UBscpd6sgII-+=q3UnS<Wozw>
zoQzWV@p?^aXErw(=v;|?ekwX%oMOH2Z;?OenPdXcIn1+(a4Kv3*6vM5+LbvwzO)~Q
z^|_|~u6-_FK^@JV3Uq9C?YomU__PVloeXrgHmH5dj|rAUb0+{Dc3pexD@0djH1~EB
zSf3Kx<#(^mh2+uPsX(Vka#pJCdD2BRcQVisH0Yf>Iux-U&7A;rZp{kvtyYuLKyz<5
zhV{9rnpWD7=_!upP6axFBZ)^U47t_N+{r*Eq}2BIW<C}cG<O2fF>QHH8O>Y6j^^He
z4A#f^+!b{}vSKfqI~C|mnprIcc4eEOxs!p;S?(QcN|PD0Xzm1{v-iZ8f?YhRztG&<
zkHY$R2=;Jf-1~YS&7BH#)E;`Bcbd|$Msp_vouqRmjrUci2hiLJKxb7s>t7b><Nu!L
z+bOU<w~Rk@4lDUcqq$Ro&Wk@==hv}67esR>104gxkRrc>eFB<00qAtzGUXB4@$xyE
zd%F>=&xUuk9xplz?xML<fzCBz_#LHdgPmyZWS}!=BG)^3Xa8z+yc2+q4CS-py?y5k
z(A?XP!1`omC4L<Fr7<qJH>@Q4c%~f{==^vR%0U}djn-i%_?Erme@g~BmEL1B!5Lo7
zXgvg=^L1RHEQ3W)3azL8Fsx5th_I}sjnsCu9xBlB{BHmCcwt~9S`QiM_-S7)vtE0s
z4XuX&bSzIv%qISDJ%HBJehAj5YtQuy75ij<q4iLK4)OT;I~V)ZD$sh!K&O#)wa=#v
z*5hbB1fa9+)&XN`#mS-f8!gYi_Peg$ZV2mhR(Hv0L-^h%v>qzZ(cGi-N&MDEg^%(@
zglE0k0c4;Pb@|{^MtwmYS`Pu}c-Og|i<5eI<=;LAus&Z7JUf(b?-7XBLj^i^hu1zF
zI6m(FZy%te*&H30oNzV(t%m?~T4N5$Us-r~`QJYJus(Z5byu})4{Ai~p#q(A@6DgF
z&+<_I?E`cs16G%=a(k7G)<Xa~?gpjv`}y{2{M&~N>vLi-D*mB#{9m*lD$o&X=!mzp
z$f*6d576nDJiVeCsJ4XGLjXGa3wC&);*?SNw~rpIkJ1OVI&I0Ps%Sk_prf<G)c&AM
zmHKZVpz~y{Y8CZS$d5}d_Em!B2^IvL4)%S$ArFfGnB45r)kh9acHfSr(sf~dj>ed<
z2pY^Skur|z%sPtfrr~t3>zP>{)k||eS8dcNR_t&j*vuTKgMGh1R=}%^@R0vZ$|uIA
zRz8;y0id(J_wce{%J5b+_kJB%pTySV@BNxyW+5jD=rHqso|*{TWq=%Wpwn`pbog<)
z_EqEv0G&#fgA0^h?2nPte-PG3Moz0WUjDc-+MknfI@tZkrC^QeWf8|#<k$k8P@Rba
zPYb0u<dA^QO_2)g+&gK1ku!4uUmxstv4yOXWxoBP4>{F9XQl1n&367UcjN>Eo&2++
z($01xi^w4Zoifgu4zkm8DsqTGXS4p1<Y~R`1myH<!#W2EL^ku64sJtE2GD6T`%R0o
zliY<IXP`q+ja-b?n^r`QBGB=zP&og5GE);di(0TgbXBV}8S%;L$Y}sNEu)U}wymF}
zkwXPKFGaI`R8q_zB8LKWI8wT9`@EyiAV&b`*iyKQUvGc>0XZX@u+BCt*FMm!IW5Z6
zRka<s=XmpQI@s%ANwZdo!euXy8l}N0+3k~|&Om4HRSMU&-OH!ughN>;L`C{YKqqhK
zo4_Md?e9A(Jn7c5u@ejpe0{Ln<?e9YqVP-`gYnnnz9RRYwmhJ7`A8zYS5!VBW3c&W
zc)c`>Gtdb+u#mq^quXkDRx5k>OAadu=&Vc6{``{L;su&JLmk#<UMW30B8AHs%{>q3
z+&TBuB~<Qh4Vt?%(0M0#>YMl)N*0<s3Fy2fC>{C0oc;vOouLNnGgx(5owI4?Cz^X6
z(6Jct=pJj(J&)$@40Ie7Lb%Hxu5LqfCjlMCr5Jy)E1Z33?u`AgKEvi=4NL?1UTE%l
zKxcHg`Mqk*?0z(NXQ1O`m%)3Z=>!$codk4VY6qREj$&Rwb7$;>^-=iPEpz48uRt{S
zJfM^ErZA4R=jA>$cW0oZ-&>}(R%OE*G<Oov=@1$<^Io(4Ihs3TFRV|_LS@+BPcx^`
z-1C4=`RkY0^bJ;@Ky!BnIsqvJH7^aO0yK9L(Ann3%gZcMor31h*aPeHktjt?l6cmN
z=AH+1>X}7P4rFgQi{|bObfOQeGK#pVGLPm?0y+dHy`lb1>0i*?8LF^8?lS77c_K%0
z(cJTZjv~`ob>8^n_h|0UK&Q7o{xomU<03S763`i}xW~CA*yXoP>*;>koDv(xZeSmN
z`RNMRyKj(_2Xy*sBfn^C?Fd4SGtgPX7cn&voMow}v8`$SQiBl*=*U$>{8h@`7LOdp
zE?A$*y=mNc&ie%+ClBaE@a%7&e_}w`QmxV^@UG#oGtjA`@Yf9XN~<G>1a!LddbjWo
zc=92Ku@ly($G@BP*T;shJXH?TPi|CR%mX^*9Ly3H#%}|W;|z4xUVGqiD1!VAIV7ON
zRJyBfYwIB|<S<lVeRf6semh6#JdK<@pc8#R*pMJT>46+)prfdIu{h@x+ZN=IfQ}m1
zhaVzm!ha)&u>;oULv`e{IPTcL$jJjbE>AXwP$r`9AjcW#$hnI0g(=s}BZmZZ?gm;{
zHZ7kYKn_D0)+g}L=o@WqiGMri0iE&HkuJ*>$8MtaI0K!R%7^0QFZY-uhXiz5l9}|5
zvZWg!hoJ=P<0xQoT;Sr$b>!p$o$>n5Z`G4`njyy-=v-0v9CpjQQi2>3&?!;=-k&l*
z^qWbxmMb|l&XA!9>r=TrlJeIjnuMG@pmUBlE1L6K3j;aMKu7=B6dP%tAVGfr_nwT2
zjV}r4h+kZ7y!(cgEpiwNus#_)j65d7v=nmkfX<ihxWjE!-Ztbo10B2A6I|mDuXIIf
zY*qBxanh9pbeyLCPJL%xd)z|$u*9e5CQb}_SRdio2#fpXa$;ybc|fO9=)%g+8ODmx
zqYaL3y~Si_pd+LZtFd&-QVDGr3Ftf&6}~?qFVdB%(-+Tiq9~Xlhp!Lz{gl!RJ2ihN
zW(GC#|K7Or@l}5*&|#6V4%pZ&D8A)9-}B>Ku^qlR9qiA25^A9(N>1BIpm~|&bg-|B
zmN{PDdzVZ1lkoe26vfw<WCU<J*gijd_FBHZ!Df!;HL@LFXY6`@2Qus2_P5VR+m!)y
zN=0UPTg0W;pt;-Pbg<i%+4J&fu%UtjnmY;V3^*rnnm6u5oo8h6^}()Z;M*&w?Q7`r
zf-d~k&aa2pSL1ZBokNE{#g!Fpl{l0n6St$*s@)gpR4u;hNZ#4siJk{lfew%Sj&&7c
zyiLeil)={ryIo_2X&kRpJS&h>4Rl_;^B%}k8hC`B2YrFgn|!6}YWC%m$WaA4pUaN!
zRN-4kLC&HytPhvSm*Wnven~1CYFi&N_{d)kbV95ot}EzW*F%mk(2?73;@2`8e-b&W
zK*udvA()=iYpl`6!p~~hcXg43uMhV4@)zBD?ReQ{P2@BHo%SH^bG)+IG~`f$P8pZx
zrw50WdeHMb1*d~OF8YicPS{j$bVUvk=rl_NUb0#1!;BpIHhi72>#08-c2~eiAq?F=
z(}0ee!^Vce+IkvtC_pFAF<jB+)#hyE5P?p$qc7utxXotd(4}B~j8*$sy%%2!BZmfb
z8g_kQi=W<_fgB3Zq5AJXu={KR9XUjxV-}azF)7~r2RZbuus(Zl?6WgVy`qmC8qjgt
z`%#GJwIUHY6rd9sGgXj%n9hqFBG6g4O|a3|^pXa0=v!cYrXyAl*b3dQL=Fw;_{;|%
zG5IQ2jT{QlSw1T)m3N@&IC6+U=Xw=OF#GoARmh=B!ussx89pnjl`M%I8qhiSRd%h9
z8SxTwC_rb^z<0)Vdej=^5P{BvLZMq!g1V@`OvlHKPfGXGC18CnRzBus>D(mTBlE*J
z;9*4x4d}42uay5;A0md<LjgL6gl<{xvHrduy)HonI>jB6EmEH*jv<FG4(nqea`Vvr
zi&~qILjyYDe7+C$e%cM9*Apl}r>0Gib-cs33OPieW9cY(bKw>H739#xV11JI<ZKR~
zusw|&8qg`p3hR19A<Au=y<qC5rDj0^I!Y(|l$o_{)sRC3I#)A)xR;KLHz0>D3hTpi
z$0Bikc$EE1@gEod)W4ab0iC~Bp3(M;eL9C63ebu0ln8p<tdoHpBG9QWy0>=9n?Fo(
z;M9YNGpwHU&9FZ9m5LYGOk|~yLjyX}*DU29Pwikw4h86#CJDEFouX(7M@Or#Icr}|
z1UmNDd!oCF?==Uxn5tRqzt~LQ1nbinBBXq|L$_eRo*Khu{Ygz4(CK3^3tB}*-pcrF
z8ppct{(1_~$ruS|AFTQ%r1H7DxHBZ|9TDi<lM;EUmiXc<v)lD;TLjPjpo_rz<d#mn
zYwRj2-V}ME`D=>!K^oA}<=Z^;u7)cL&5HtbC^rIMkUq~9W(9d~S}NVCO$0hDkw5N#
zO;wZr_xVd0*5|5zXVFjTCn?CG0Ud{0Du>k0vGd5G0G&5ur(!aS!?XUq{{cF!VvjdC
zC|P|$4qXV=r~H__;U!8<B64Uz=X%`Hg%W>41#&1r$1<u#Xq{^7zt5FKpwr{I^K<5w
z;{SQR5QO!yYl_J-(JxF#+eHI9V^Yn#cm{W8B8LKW$P2}v1#X!RBZmldyw~(@<NU^@
zh#a~AtdG^sL&}*RsyfJ_0Uc`vllsD1u4~Al0G(B4-4!x9sZWqY1UhR^ey5X<Dn%iO
zz7f{v6504A^$7J9a%ezjUq)TTd!L^lkV64F;mk35wY_!!e%%ET=s36YJ$=Db@$d68
zogdccx+{&|7V|I&Z5IvboX{XE_PdGdoYR}qqR8B<qyQad+4Qe1Z+9Dft~26xIB-jv
zh||ITyvmN+?2M)eu~nv?v%{5JRU$|DV10HyY*kFMHvJsZmQ$IuZAv)<=!7jW?&x+X
z=<InJnyw)xKV}PbntuE$W?4J91vz3sXP}q3kY(i-i=2@Sus*ft`>pxe7Ji4VPkX9a
zx!x)R=)9u*v>J5koj`N9#pz&QR~Pu<d+WkujmK#2B%F>2)BpakaCG>aB=Vskg7vxS
zO`A#f2AmG|^=JMbmhY{B9<N`PUDM6<uBi>i=@9<+a+nGdWmNzFS63$zhD8gKKX4oS
z;&ia<>2_sj1PvUyiuPw!p!4Yk|I~uZYUNaMxi8)yf4eQNhwVT5pQ=JVe9P_PbLaLP
zm7-j%#_3?^&M=|KyQ%Gb;VF|vf2-wD6O7YYi|HI};bD+>{&UOrg<5}|p`ni%I2}%m
zW05}gdBc(Vr_ZHaIkOK8UB>HR-+#aRz5Ple*{g3Mc4@M!{Hz1s?ZTc9pNA|Tstq(^
zilu9&M0p$KQE+Y-cK@;PF<nUG(WzLuqTHHLZyQYnI$TUA%R<I1wwf3Ha^5f~OrrC`
z_MZ(E9vOC(ywcSzon00C1rE}HPMpa|-@c@_HN|fq`Ub0b$5DXJ^ey|R56jc;9;RvN
zZf5UyBLbb}-CsY%jmC^;$>qErJ($}==YjRX{@f=T(1{N=e;r60mzQ|AZNTwf;x`J=
zxft#>Y!rMYOP{4}wT?QE1QF<T%Kd8l@-B3m$;RA9snXy$oe1l5ZolP~Pdm4&4_4Xy
z`AOc=NCP@%L4?f)9El%mBI2EV2UEo;KxfW?Q$Kw#S^d7$oyw8)Gv|mvC(8cw5Ra+{
zlkR=(w4a$459r*mKDp}5eNmgO_T4);9_VXS5JCewk0T!s=U!S4pP4y3WalB*O947j
zCIg$6Z<18nwPM%sNY&>MfsVm}*psd4adN9o#XGe}UdYhb!TMy}H`=MyJ6pD2$DF~V
zx=DowbfjGTUR&L;I-c~Eg)_#<;}Zqw<VZ1!M;(nU`5eFPDLrs7f(Ud@`7K-J-PBGy
zY<w#<IkVyheJ!ldq4T{>nnBy`bYJG^+$!4qga&l_*~aZ|oPI1&#ckmkV4_k@0Xn+#
zs##B6NZP!f$JuLVDqD#_N2Bn=v75@)W=l!oj~sRxSJBtN`bcN^-R~A@&92CG={u=2
zT2BKyPhYoXEG8LGT^V<F98-ENN&z~%WWzR9drz=B%owdEjK1n70v*dUu2a7H8Mc>t
z<K24ZAF|N7V14c?DpJpGaEY<fiLNyz^c|!DoqYw0m;A+FtWhQ(v-wK5D5C%!l5^I^
zL#0HM7m>Be<L?e~5P=RyM-Ac7l=BaXsW~%#u88gQ)v!Lbya!HXYPifDPyQ{r+hRqI
z26Xa6Dhw4nc|-s9ZVTX++Vy|}bOcWbyHebg^uHWw=}7yPpG5>ZXZLD!IKNR`Um5Ue
zjj%z_7dj`b&!H*Hfk&Y-YsSB<6(hvclW0I^<DIpy&gR^ZJNn#Ffci+6g#vT}694WA
zkb2?a7ZPc-&v2s~5$KpaJe~h*`H>#)H>N65Qu8#O0PAz<O_;Q`;|H}7OVN5)ZYdHC
z=&Wqqx$4=h#r_aKVyRSxu@D95=%o*v-<2s(=>6)LQthaqMg%%6!kdpw^hrCluL{1F
z^v8TNeHE-v#_~#mtLg6TN_-XDd_o#6X+THx;9|+o9i*>UTlo(4mRCAcfX?N;xh?El
z4zqFzzL-(VeQHDmI{D^V8~#Xc`OP&)|GvbtUyjZJ>mx3F|4)u^#ihgNVxrdRPO{RV
z&dSc<zUL{j^+rN&UP`036rfYx==aGWc7SzYj>guza8H*AbXZ=`)gE`>IedKoq*q8{
zV+@@g*5|O@0hjIuzS@H)MV_n@c@aPZI_ftHAH7<xaJ0B#uOT_!b&&#e+?jI*%#1E<
z+jRa~*TbnIXClzK61{Pw>ZPAUO$j^h?S6KLL1%;Y3CMLQKBU0Q^Im1{pmdx~0uAW!
zo#Yp{EVj0b@JlyYH(DA?0Xm-2y#~L1H#X~sMsn>SzbqvJ9WH85H=(jI(bqyly2QDY
zo6ZXBv-i!nerErgOX(kq40nERDyIRResh)^O{M31!%GfjPXs=BPXRjC779Dmcw|$E
zoSQgaspU=)fey>AGj>he=1UG1e6QM+>M2EMf%S=W{Bil`KH5bE1K$Ak+s+SYK<B1j
z$8O&cC;sMdug-mpZ4jaW9SM4wHYNSV(A_vWspSG?VIt7E%pK;-&&+;y{AlGaId-iY
zIy0<~!JJaj7nR$bA8UIqS(fwZ(tu9R*I}6|Wj1FXmYp@CZv?m~K!=qosQX^p;>=t5
z&P(FQE~XNJPV$W1srUZvxxaqJzbW(E^N7v_>tjT85UxMoAw)1)^Ce`tB$5VnO7Dfv
z9F&q}D=XA{(C^N%kpgstkN#*SNVjK+H1utM@+Vr32y})Tcb?9Y6p+vx$g7!IeBni3
zSzh_C56sKd|M6Sw>%BXrnYhUV)x==&(!{HO|8~)U&d@H2Kif+u-CkuovTSTBTA~1*
zlHM!34Geo@UOU+nN)F20Cjy-tgp*sNB4YexYTkv`JbSS~{|oE0;`GY%u7nujt6X+l
z?sS464e0pkv_!ELZTI(nf8*x*wk1Id(3#BJ>~t$>c+30DKWw4=N34lJ$5TKdwadvf
zHC%9d^j9tOWBM|zPnX7``#w)<{vM7`^Jj0~+e-sFqpH3FEpclb$~<pwe>JHVO#wOw
zx{nDw9g;D${32_=uG5E`2y}kwT)Nm;9DL`I%FhE5-hM*#Kd?T2J)6!Y6Gk&#n62zL
z-1sU(13JTb{b~}WVu3|hC%RWz8tPJjj_|j&Kl#~NJyH*F4m$|@iW7m(<?m*PX-7K3
zZlruvNSbKRr2mHXsmOYxexO-U?84-CJ^MX7f@na8-gUs?bJr>A)_r-cGnx}R6rhv3
zb6)SM<NBXWM)G%FR2kM2fzHcUJC?IvZE^_xesR5eN=hL87pzaNHka;=D}0HrWG|+m
z1V?ci&>_DTn%lp>oH;+lfPKQHbT0+y$WmXX7b)f|zw&I1Q*fwlAOf9;jK}GQ5#0+L
zzeEiDsjnTPFTwg8u!|x3{8|5WdH&4dr^UC=(}0dju6DDCZAjlqt70XeagR<4&>_V%
zY*S3!^zn4;v59iu5LqJ789KSsFWY@@+Sal!`<Lt_1n7&fKB+DT37(V*5_!t`bi`>B
zPa4oUuMsghXgC`-Z?$#q%eJ6&3eb5GBva~_<XvWH#hkioj(3F!bcD-(R}OwiXN?do
zn)x9AXO8|8)+a~$nf4adRIfte%-ubw3;k(8XWD`LHecwp{3Zn^$!B~K*%Y92Gj`31
zil47?mC0?H>w+w0h(PE4GfDl!djywu9_un19olS3{{ib`*7$@V*`w<=W4^Co(-P+v
z8qnblkbipAb0nof%lH@Pqr-X>pkq4q&{j#d#8=rlh<JMOeLE58#QLm^F&*a)<SL>#
z<$G^dqA$SuynMxeL6R?4SwC31d(X0bAPwkjyBTYE|6)>6{L>|~qw4jCDL|)4@CQ%9
z!nF$=&kk=sPRyPs0v)63x0@`wx3U$f_y>OA5DK8r!}^pov7V3p5&KOqitTnyq|iPZ
z&@t~@+WC~GtE=H<Q82QB*PQ}%ns2bX4kSfWgmR7czR<|8Bmx~dd$tz0!?yIVHiu-X
zvG;W8bFe<oo{pZX-*x2bu|qxqrZ30pX+S6Y5BF;8mSmCWtLsSaW2Pk(pwssKsrH(Y
zvdGAxGaHJ;#%hQ_r$cH-dt7G6VCb(P8EwOlEc97epVkM3zZNeg2Hml-_|0zcX%!9V
zII7Qm?CMxI$@2HW%Ej}IWD3y9e5w8Bjqfwo*|dAZb+JuPh(Kqz!XwFrLunT#yVBDW
zPQ28ke~0xsRL!5xHYYywoIZ8<rOoCb8qiVIOFLKLyx|<fe3!fIHL-FE(D|`}pCoe7
z)B66$ih1^)eqAEaY3Dur>F4#5Wu3u0Ty;lYsnBO&eZ-yYANv?}Chjh+_qup`{S6w>
z+26@&-W@U}<TP5d_{=eDlmc{q3RB{#3)~LH+h#Z9e$W;s0v+KN;{DGXLQh7N1}&EE
zA~?{$!TKa}nBBV;@M>`F<!=)gHag7HfKGyb@|}2gsr>Q>&yU}CG&xNHI>(#^q<Uzi
z=UTDKi{bLLr$nH$;woYKYBb#Bm9Ax*Ra}}jeHzwhS*2bo(*D8&t{Vf^;*UKSXh3I)
z($+Y1+xh4jljfM$(M_@xpp*B3ooNq0Swpd~@$B2iUq6UIXXjRvxfqYQcdkt3yIrO$
z6X{=JeFTTt61jvNb{yTF^!nz|c>@~IaSx6*)$Z3y9V6%$?Ub)nqyU|RPfj`C@M+^-
z8lI8<dS>zf5$OCD){6Ze^ylYoGE>{WqYXUtDOjJQOOsJ`sY5|+?hm%}-tD?e13DLX
z-w8=^(Ku<bjmI`KMAV-GbiNpT*PjW!Q)qtR>&?t@aRVaI*_tH(defF>nSjWofV7d6
z>+~<MKAkIj9IL~<TRhL~eXxE$ynqIDMgp!&xe~QrR%oinee>?`q5z!&sYTT_H{ATC
zj(P4mo)P?%2y|$iXAECZtG&Ip2^hO+{uHHuhV{u=zxuWusrvfmyd@8L-aCUdp!112
zvTu{13#Y!$LXv~-;sOQe{JtJ*)U<B>Z8MD@2@m*8+lfHuW+<s!Y3qS3f7aagiyNak
z>65TN&n5RCsWseW?p`|jxTIIFf(CRNS|<FrsIPKAWid{#NXSv903BU_zWM01`;C9U
zutjy7{Cz_NI{)$SqcLE8{^Q?A!|7nZ|KdOXeKed7_Wh>+`1jF(&LjE4$@gz0uA%Q+
z@1KD62`{8fa9vq=BiLj-xK-x7NfOXeNu#Qs-SITWIC=Z`0RaVmbD(o^b#XdtMk;e@
z4&l)w;;KpkphHUPQdTVQF4Q&N(R+yQzqfxJUmxt;1wY4R`6uZ898n#t(Xlab&A{nk
z=Z^h3fwn-WX}V<RO&P)J2Q$y&C|sZaiUA#SqwjN~r8|t#&n+Ao!`BD9UF1K16&y|x
zOcwH$ga-(*hcbW;ht^}|#(T!%9GO+BuiKnEY=O?G+weY`^y(t|v;2>wD1%xtpwpJQ
z`9#mjk6WpuYyN(2=UW>21nYzSIYJpg$LL6x+8Tbss_f{ADVB#UO13~p@HE{fvRf`y
zIs11|Vaaf^7)}R!T-1lU>E{%(-9+aN#z$Bm#tts^2Pv-M^OYjI?B#vC@_<f6!t}7k
z3j<zsK6C~;ll{5blc&oI(RPu54!51m+D{gJkK<IoWvpo<3NuDweRewvM%DKGo<`f1
z2Xvm+iEF?0eW&;)mAG?gU4NuA(An|LFo;{_VJX@!6422)zC|aXid7ALpA_Q*tWRZh
z(=!*%rmR4Er}%c&vEz9_N89X&yJ*AIu`Bll^L@f^t2zT6nfkuVW<}9$==-)vKxg>X
zQix9Huk#nQO!g?$2VG%|!20M0NPhbr`~Puvr{Pe(VgJDGjgZNftxzdcXhjq$j8rBf
z>Su4U7HL6bNi_;hk&v>aY$>5EAzK+qCS-|3$(p6jQquGMkK;MLxc_hN<Lq5;KF4)^
z?`6hZ=XG8JJAAWC#qQ74{!T|ajl4T}rq&&p61nS=@cvfRcW0#YX@+N=;dLvYx#tV%
zIGJsFe}rDmKbOx(Tt0q@H<`z~e>=gv(vgnIA>T)7o~I^YUd~7-+i{IG_sU)0;5k)7
zI#2q!&gf7zzrg;=fi7G={=-2ghfU&UA?I|YQ_`<};7+qgI^^t(be3jZH{5r9kq+dn
zgmiqL?(F8Yz8(SZv4Ib`d@7bV1ZJ765h|{VN^kHA7fwey?)jgdFJIFU4*mU{k<LP6
zPHWN84Rw7{=>n7n?=dBk4)ODycuv-MCoZ3Tr3WQAGGwX?4c33yF#4@D2kD&d-N#WK
zc(swk)wf@&I!DeE=@8EoS4TR;^TfwHaQUp49bV6N{b_J;CZka;?TdX5(y?8w7V17v
zKU+3g;MciFZ<lx?9UXdd+i?nCb!Yrb&-&>MQFWvvJs^6|>5`qzitCQyN!tU@kH5#|
z6S2mYb*fmgLHKPGccpg1nH;23uXW{AzP8G5I4|21=};|BCY)*Al5fCC@yTtJ=uk&G
zhu%8OmP9Pepz5woOBj^m8*e9<5AiuYA+AvHQe>0QaK2Tb`_f+LLXr;g@3<9-KjquI
zxx#t-rv|nw=4$#N9sWN%BS(~dcD`tvuQT*@K1~zp<g%~Mn(Z!l`sFnD1|EM-i>Wqp
z`4H#zw)}7#$FLmxP7*!nq@VJuLZs7FYxd}D(Q~~(f3K~dR#j{IkaURG%gZL?T;bp{
z4d|DmN7CUTR5EuQQc&Aranle!2PH{5#C(W<54N?E%b7T@bB39+Mj`&aFrFlm4skp?
zl6{Aqy&^Bo{hf<+h`%4oBOT)Jhutl>e29NnrjvAt`4E4HbVfSF-yxNdj-{R852+6u
zRN=Z0yd#$nab89)8-up=S2V!yhv`Vi_*ms?`71%yvmwkd_N^%{XQb22*0dE}wl57F
zC8T5d*Wr_-J4HRdyUVp)^3UdhW^(xupD*EU;*9URYh|w#Yma?u4*HgZbmTjm>OCV2
zyEz++H>dISsQHj|h}SDu?Dti%^8(bxuUBUHS-tGnL^_LwGM&F@INj@Dm);8RP2iqt
z!sTOAUm$-uqx4sk=fL)x^K4wpNjk)NeZ2j-^Np0~H}8(?rADjd1A|C9#OvjFpxto(
zJ?}lxkBCOnA&zH~^Locg+h9KEM?^t7PUQnL{Nt*Zp&t>ekzCHi@o+mYnW#ImcN+Q;
zF_2DR%DVGI)={d^kBEkJV%H3B63N!M1O137NQe0MGV3iaAC0f>#`l_hv)6XTcX7qJ
zyk#IA8NYgM_UGl<(2t0QbcnyRQIO8jeLf<k157peU5mxW<&zV#spG>c|M}35h=FuM
z4^TpOEUSxvend2+^X?Fr?C`%WmC%off^^PiYzQ$utN#u95wRL@`S^70?z<Uq<p%U4
zVjvxbvl1K&pG^LOend2+6S2UnEH><o2lOMNARS(1-{I1#XB(j(5$g>uAFdipzMl9G
zGtiHSfpo53jec}-p?CxIBcdT4{ltoI#?yD1(2t0Mba<z~PV7BS*#P~BSoOGk8hTDA
z%jU9gLq8%0(xDCg?<eT#`ZVZAL_<1t#hRndr3wbnkBEYFbhX)oJM{C0pdS(IH7+0F
z9`^%(TUK3yenbqU)2yB4+wRRR2mOd>NGD)XzUi9PoTJc>h=O#4@{BLte45Y={fJm~
zxO}cmmNZcsgw8=fA_meCN}c6-vbJv=`VrBP&h+@6w*uQO+@K#31?iMh6H-@i|Cj>(
zh*+<1`K+kj75v}T@i)+qh=Fw0HrCobK47R0{fKBtr|{L~pFW&VW}qJt1?d#0P~FO1
zn**UA5vvxLkKfguyJEK#4njX72GaSU(9spNLf0Ak5z&y&ag}EN`O^aG(2t0Mbb1F8
zf5x@MEr)(YEEX=GmatT%n^J6F=p)2HI?9G-o&TI~mqQ;R8qz87tUNln+9DqM2vLxZ
z>dPN0$==3s&_{?>gUcsMbVMkw;e!J75n>>n>^IkCjCtq#K_4L+(wRMFTvoDV%L?ct
zL_s=FMdhN$lizHHK0>UQ$b9ZwIJ`W+I0gC$F_4bJwtIWy@ArO$K0-94Q^23wur&PA
zC+H(YK{}r!R*iZz@2`M9LaZ0Kd{h~c2@5zQQ=yL#1L?fcx0ZUh-?0h$2+@#Eg8ryd
z4(*{W^bw*U9q(216F4c2UC>8}RgKF>YIRC)=B6d*ppOs(>Ga8){N|kUE`&ZpG^8Va
zx83{0-nMX`|LY?}K{}DmMhmmo|CEG2LaZuWK1TMwPe00@qeCAd2GUWxKX`<valaw-
z5uza-Dy6^pUzh7o=p#fyI=rdE{(|pbsy|VnE?V=HZpNy_<x`o_T=Vw8$A0KX#6UXl
zHwcS;4&yos{fKBt=iPK@uhNF^&!8U>1?hAOn*MoMZL=Ht5wR+8`S^Lg9%gTu-3$GQ
z7)Ymn`rWo2v3%9gkBEkJ796m;^z>wc67(aYAf3^!lb75Z4IH2!5vv@R&(tT~AB^c%
zHRwmgKssBlJI(l5Jh%Y;h-gShOFI9*PD=4^=to3BI#;y181r8H|ABr)tmn9VuB$Y?
zI+wKF1o{y%kWT92lrzh>ORR!^L^P!HS$V6F=`qRu(2t0Mbi&6TO&*jGAA){FtTJ3a
zaj{2}6Z`qhpdS$f>G)NST|1fGQ3?HsXh<hm)iyh4Q}ui3M?^t7|DF^Wh?WK!LO&u_
zDK4M8zRhQsy4fv;enbqUGjt}{m&v0L0sV+*NQW-6C!%TJmkj7fL_s>{C3|lK3V6SO
zenhMiTt1?yZZ6TM!fc@*5d-NM>Sg?p^WWS9{fKBthfA}0=?1}}YUoEqK|1GEJIXJ0
z2z-EkM674Hd<K>bX*kH`IzvAq2GUUyF>Z_5G<gpC5z&y2JflT8?~bD)^dq7m9p&Qu
z&tU~pgV2wNRgBB0<Y&UIWxUVkLq8%0(y`fJ?XcLNSq1%wXh_Gg^I^8{C58W>9}xxV
ztZ4JOQx&Fl8Tt{iig5W<n2p}cxRV(P{fHPyhq6*|X7Qp|oY0SmhIDu|45dpJe{_I;
zL=>bm`ltWgzf&`g(2s~!h|6a|%^isd=_l^ckBEVElEhR!O6TpafPO?Yq_aRKf#*ZX
zs5bN?q9C2X+5?PGj`p|EkBC)(%ja7<$H0d={zT|U#6UXcTJ&ANU3T7send2+bJBF1
z%@K}0O3;spf^;0u>>lG3%40%5BGyw}KKZv!sei3EHGzIa45V|H`tbAf@b06~kBEkJ
z7L9NYxTvh~hkis9q{DaNvAx~!=vL@Q#Cn3uCuJ;uqyBA;S?EW^Kswp~T`XNJRG<s}
zh-gU1%fiRUW_I-_=to3BI-@Toez)B43Wa_|tbANPUBA4`7HDiyfqp~`q@&zySn_b>
zu^RLvq9L8kCne!)u6N2pKOzd!@mMNU{OdoXe&|QU%ERT;-BQrNLy<3oenbqUb17>#
z)nQ4-P3T8NLpr5W9lpv(?w^8wL=>bmIX!wXv-O7!^dn;B;_~@xQEqu;wO$eQBVr((
zC&RoGJ>|u+(2t0QbSh5k$>>Z@20%X|3eri95u*P&`(X_F5wRZQ@_F65ZKOs*xf%Kq
zF_4bvp*?{n`<@6uKO!2^G2yS({4P4;2K|UANQcMKrD6Hj6^o!B5i19m58qv<vH`!?
zN$4ZQKswaH)Bm=eFy?|jLNufkF>?QWk!0R?=p#fyIv3-eT%BSA?Vyhk>k%%WhR1$7
zTo#K<p^p#)>GZ8q3KmP$AAvqXG^F$WQH;-&W5NsQBSb+u(_c1*>Yq3z3VnoF4{`ap
z?$&-afAsJ-=p)2HIya5@?s7I(oP<6?G^C^Y?{g$YEA9yN|Dhlq%hA>5<7ZC2gZ@9P
zY+ODPtt+2zdFmPu{eKupXKQB1)Ux^SI-&m$4e4z98?rZWy+|tb|Dhlqf!3bcL)_m*
zq5lu-0WKfPy4GlR(ieW{|HD8!av5<QmVegCK>r^a(y{6Bq<)Ol9Dx2m6r`gkm$dU6
z$MH|l|A&=@%jX;0sawjbW*GYaFpy4+-^H_!AM+YP{~sFCxg&SNJ9AWN7W)5CkdC#>
z6On?Lqn*(Ihn0!TN4!U6UiL+8Yv}*OKsq;`3tC=U8a4*~e`rX@|D4>~m<_67(Eo>m
zbV3<2KhHZ2heQ7#Rt7E~)v9a1idB}cgZ@7Zq(kg?K|?yk{v;HnL)=fqO2_3x+)u<H
z=@9o95cdJmNjk)Oe&RkLD$*hL?O~_k@*(!^VUl!+`4Ic|Sdnyy`Q#4W5o+DBf_L%d
zQ&l6k6n01=9XqbD9;OYyb?#P8eJ9}`B5n6^`8Y2x-7BH>svGuG$0D8iNmqBrF1-2y
z_ETFS9XG>iQ?U!1D`8))B+}8-THC8|bCKF-)oe;_b80}_JzPG09Cg=hM;GwHe(G4H
z^L3%8g|qB}Vc1V?g>-J+?p_;X+ENGmsU?xl%|-Wj**FCE!hY(uR9rq>61C5_Rr*B1
ze(G4HbN6n{=kDLSeQ@2akj}*O5I*K7%?Q{}Es1oxx5qupD4AUZ`>EURlFNtq-bhOs
zdDl6$I3D&>Cy{iB?~Sp_p({hhU%g>JwLQ}D&(ip$H)$&m`>ExTj%U-R=Lv65c))(@
z?i6zQ5a-qOWTrpR+j9l%r%pmTjvNAe*NS=WgZ<R@Bpu@Qs`PqO9sboiU0&n$V}{@N
zBqfp#H(@{Z<gVQ>*U9{O@4fqI(!-?4q^V?b`4An4;q3D*_Xctz;wlR2{{Gs}BIyw4
z<s0@T^k%I>`I<K#;`5G4MKO_%bnD;f%uKyl$j6GLL%i-)eBB{Dvd82@{TMk4yiXrX
zA{~=1clNYi{W-}8_a@Vh`<`k`B9}99JmS{xdM8A`@WS<qMLNc1HW~Mi>E}xCS^Hyw
zz&{@=q@$k}5qSDk#GXxCc@OtJSLu@^=@9qzdtJ>azxOoJ^0tZ6P~_qFHRFlo@*&<o
znUhXOR;UV#XG^^4cyL>ruaKle9FKiw+WpOc(t2aNY3zr|MWsxV4)M8Q9a`bfz4)8(
zlv0N|Pta=#dy)?Ex~E!~JabMz#(Dqz9%0K)vjg%Z9b!Hy-&p5kXeU~KU7sGT&vSDc
zxI->y;=CgL)(7y_Ih>lwJ0_j8d90}r=@h<tdfOxNx?4oS7NPOnreOw2hd8fH`i5E2
z<C9y}hCAuH9UlehBpqVT8&X>wwmmyIdEmc)n|HS^I!r}6+y!ORZ>f%(5A^YU{N_IW
zoPC>I&cyL7_dj8uCttT3_ER&F&LOpj!YZbfTCks*j&xX>jfFMSBF|wzH5KU;jFj4a
zF?+fi_EWPHaQVD%t5Q#qh?s@_)J&ukrr*i>k*T&7_Ak?sj`L+sp>C1&y0Cwligb?b
zHR#b_?S2FL1hQ}8@*(!+V<Mey!!jX`4`Sx9Uzm<`R)l3N4cSR?f&Ic%q;raTNat52
z=PB4P%#O$9vs5GBA%pADN7(1fL^?C6EpAe0Jl$ZQFCFRl-8gT{+8S2``+TWLXPtd;
z{NOY97T8zIj>F|6HgUXRi>rMU?5kxWo%F_Ek5vssC1GDJ9qD9A_<g$&oRb6lYN<$v
z?}gP^gh1sg*bmE&#pPom9lMAxEpZv_hh-w2fU{p`*IK;MhkdMcq*IyGwp?zyPZ{>H
zQjreLKrr@{#q=fE$I8Bm%O`lj233w=voo-dm5FqUZ#P*c*hyc3{hoBBlefB|`d09p
zF4*r$MLIOwpJI(c$E{$$Cp!k0Pgm^x*_lQ0pJ2Zy6Y0!0B(6>R&VC5{J?Tit)?EMh
zG-b<v*zZY2I=ika#E%%Aw}Abg>>Idz!hE;OB{;lW2m2YBNN2YyW7AJc_D0yxNJl#9
zx-T<lzui@X{ftzkBdF7ow|%U>7xpu<qjC9AH(#3?{N|(!`x%)?$7V@Vn{%u{3+!j4
zBOQOWvXbhTwq3BFk&1M#$F{Xg^4Ye+enxf_E+3yY7c>6elvjcMdQ7DALs-P;yANH~
z=l}NW(UFdikTEakH~Bo+uSZ2XjYZ4r+zlMw!G1mVbzD9P<-&X8;&m)wzaA6m9L!cb
zQ&79B8TQ%HkxrwB_<rFx-X~yR8x`qn-+%v_+`<Y~*w@CshRbJ9cbJUzl3iV}uZ@Xx
z!uIl1U+&324g1>YNGIsTR?4g7^j)y8jf!-33W;q0&nDp~>}z8)aru;8IAj!jL2MNE
zwK0*7-(s7sa=d@TU|$;@=_KABR_bxQqz3!is7Pn*$G)t>p}&c+uZ?{bm(TX`A@lE@
zhxfp~HYU<ZmT=x`skv(w_O;QG4yWso>YaZlJ78ZM73usZ|B&Bcv$j3#Yhy>^@(Det
zrxV|Eiy!v2F_F%%&U~J%mj)@YuZ@m$jwV^~br)x@fPHOLq+`3@a&^{{j@z)WjU9o@
z$F#TKNV4Jkf3R<hiF69fnl>*M-uMmnThWn@fSah4(jW1wu-}S`bV62Ija~0JVg&oG
z*x|T*`q%ym+30ZL4(zvLBAsdGU(dbnoo=w-ijH(<sKSvEuN4zupA;48c<eJj7$0OS
z3j3tkS8(|Vq%Ev8T6b;@?2}?5oo`hy6>pbl?1cS9bfmL(H#>Nn;ZGmf2Si0Wt+h)!
zGSX8mVIL6tGA^HGbtl*p$3=Z%9}pAitiRbl;T)~24*P)UNGB~VSTb=cQW5q6QIXCu
z`45v8IzN`eJ|K1&E}v}|MJ=?H#}B|hASTjrdF`*W-Pw@?_RG+bPUSAkFCA(WG1xCd
zMLHWMWI}Jc_2t5T88!o#k2L4;>r9^~uVH@*6X}R=sz`3TANU9MgV2%AiD1k9ABx)&
zU_S^I>F}R<EE`j{cOUHIU|+)J6Zmk^<NBzZldzA2iF8DA8%K55iA2Kw3p&!F^kxMa
zUl;xZ`!A?SC(C4S*%oHcDD1yrU&Q5;yo@1x?l)gJ?7v_lox@$tw=_ST(1r7k=}1T8
zW~pMHe}@<BFQ6hF{m}<f_muY*L)|<30xq9P5vx^Otm3_(UY&__IKJrboQ^#89L~L^
zBb{ANc`vRf-EM*Ua4OO<*b=cmBf?Y(>ciQgxO|o;Zhqvu*4-QGv6)DxX3z8eyUxD<
z19i)Eq_aw2!!R#KB@pU+sYvHf;{1o!e~!&SeJ}ewE}w<l?OYbv#MDE5FB9q5U-aAW
zrK`LO>U-%(XRpRZFaD!1+F(7Gigcc(mful1&glW`x$F>JKIQRis56}_D6pQ(L^`SE
z?km%ryQN?~myUF1E^jhu)z!#`^;{~_VLjM+PgOhr0-OWI4#wqk^ShMz{4FbVVO^Ms
zbkye=Q+}MQ=Z1A*I?~D4vlvV8J+TSag{er#eANB;lb`W*(ASzBgv)2`&lPty4vDBi
zKWZk@+5e3Da|eCX#kuumq*HNm)Bd#gb)V+emywR|!Qp{gR%GGa`f?yHACbex?H>=H
z?3r6%Mmowx-xL@|e~RbUmyyo1_VovKf3%s*tuG^;FDp3y^k(V>LH}p=Ib1$f5|+~c
zice?5IyDpN$k(s4**X~_2<y~zq+@OOB}3y>RX(g!Q<2VFF14pxr}{-;othnh%jdOi
zT*2PU&Hb=W%|tq?-?l8y)%|=3)~V@8=VVpVV$(7HFR)HcMLLvp!%t^-o>&I!)NFrT
zJ}xIO1T1Ck_zmmSOr&$My41Sb&zuX^sp&}P?M1=m^V3Jupx-hT>0EF16td+hSO)9e
z?6bIhwtp&Eq19Cp2kYHTq*EdJx<E<FJs8%h=}71H*Gq4Vc)B*gIyDvPJRf9@NbMUt
z0qfLkKU_YK9s8b0$oF4^b!sNkX|Z`<{Cj&&2dq=mkxou}gYi=pS}CkkQ;|;oz^c;l
z=tm1+oto{7%g5sJ=t9r^J9fZ2H52I=Z<%?zdr`LqtW(pG4kg<%d1sH?zPa^fq@#ad
z)@I#<GwyTi%Rab#?%VP=jCVvf&8;sZ9pz^mZa25xJ?#VQ%Sh+i)LPq4(N}77>&r;T
z(1cGSaFf#b-1_nvTt1Z15*>pjBQNIGmyu5Ntkq$T!yf`+U6_t^hQg)y8L4-yhIL^o
z()o7$TT6P1hdZnbvrpsl32oo~!28;l7+4o(BAtU3>7^})?Q39Nn2vN>4qvI<|5x@s
ztP4|-&ZEe)Q6C@cY=L!Q_9<LG>ir{M_Ag!N4(q~9q$4+@_vzLi-eg!8rX!uLEUl8X
zs%S1)7p7tzqbAo&lMx?aU6_3mm(SW;xxO7{B5YU}W+I(VuS14{TR&yOx-cE-lx?CO
z35exUfpuXj(s};C(xLQNZ8EG2v%PWo(8qPJO8PoeU|pDrbRriGM0E<rE5N!i9qF7e
z<f#AP!-#-&VJgyjsj|$uQk~Zm)`i(8aQU<rZ+0C{$SZ_(VJ6ZkJF?|x=Q*iWur5qT
zI;Tz5IQ!iCIAC3vigb=$$bT=|m2L#<!fY>GKGGpo^&?}Qys$3JL^`G$Tr*ehT#*QU
zIO#}-(Jy@_QTB7_-1;)oS#v$3w9RRU`P}-lCoZ24<*^p)s)y|7)|ZjazsQl2`8#^f
z&aE#ao#oP9>$G0H5`cb{RHSp+d0WmQ$#0Kfotk|dm(Th9O-|7~q0z8T%|tpKMJA&s
zSIL^dIyD{Xh+H3fX^?n>4(rrZq>~`Apgc9%D-G7E*~f7Cxb5C;cDO$IJFHVPkxqfY
zN7cCP*;=qpO-DMRX?*jOkMZ7vb!sZokusUItlqTrFRW9uJ#hJyH9idv7x8)u>(or7
zv*GpWTvv{`30SA5Bb~Zu*>(HbPcos8A{FUusn$Eb;p3Il&_|K&j?3rY(EZF4Mn$h-
z-JFSZ9-Ue0q|kcR1=h{!NN0nKvybHFauMjGNJToaI^Q}qb}n$ATYq=M<x`L{R=KhG
z=<&JrccjCfH_a{><a_{q6zNFE$1T|LnS-Mftm9LWj>Z0e8X9#=e!)6E+ZC4&jhhzN
z?7nme*72E0XMWqLy-~2rby&xzBb_uS*%|HK;ZxAJkcxE1s#HE`1zXob-$J$vE+4Kx
z>3=!g#3P`tfQfV#%JLih$U0vNbp>>!bMU<R?{8bp0-&ydigbRZwG4!e1QtR+J+?D0
zpD+0Z4tc*XyUo=nARU2-%2FBO2>!YH1f-*N-Lq0|cYEzzeFD<a6Zw4W%FQXRx%z~o
zxO|o?cDa1DG?SdGPe3|t_6tO$mgqao)h8ewk2|U(i*{LbK|eGq(n(%-_1dID>;b5A
zU?0KdLpkW{DXYoe0(A~dq@y6Y-_~(3Hyi34=t$=lTYsbG{uouLbD$!f6WrUxr<aXL
zLY)KqFfN~GqO2<0mbzG|b6_H!Ls~}VMJZbDQ0G8LI$Mp;`M3tgxI&!+73mnzas-vv
zi&#LN1N#szpC4~GQulmdN5MJZOr*0|fBkGD^I9a-OVE*yoA7$UoVbDSP%lA6I?5ZL
zU-0`|_7>_T*iN{7iaq^TTo!p55A_mEq*HsW$47}f`5M$q(2-6=d)XP^1JNpQ4mcI*
zTu^7eaFN^-4Rsf6M_fKqMYW$cv#+T`-31frwAoE=xpwuaE!17mk&fk1-MWsdecPe#
zf{Ju@h&ac(4s3e>=YX>vaQO%yKdI<=ks2~rzkzgeH($K^_{c@&x%v&HBN6z~;X^~w
z)4BQ$r1RKVulz<)(PB6UoNbTGr<&7dW6@a4UZ?|MA|1}-n$)Wj^+iwzLPt7Ym!x~+
z4qL}V9S9Zav`X9avp*i)19c#5J6t}4!O45xx2ztAIuIt(;hMd4gKMjy3Y-H@M><L~
z8{cW?>`aAv5-QS}pnkt5xyn}(>PgtPxO_CLEsh;`&Jl-mz?n$LW!8c9ddJcwP?thS
zI)V0IIWt2!A3<FT73o~9QoJD4{$>#BQrI@QeCYQBpY@GglZLt!CemR%Vs#bL94DbJ
zg^qNbz042xoLaU9&H<+)9UmqCfTkbEE#Mq*_J6p1t{HYLsI;Cu4s|k2q!ZI(|5m<n
zu^`mR(2-8s?>fGoCLuZK3qeIXisxf$FY~lNgnAqHL0mpdn#C8b{Kq8@^)^hTqo46R
zZsV}q1E{y5Bb^<(e(eFG2cC8xlq+=?UZF%qI>UPFZb@k^n1H$+_5oZzbyA*2f>(cx
z!Fl3Lq*JYDmKs>IYCfDNPDeV=6?tXO*v)?p=ZRC1j$rls+jTp**1~z>Y-?OT7eBpC
zkhRtR3w2FQq@x?T`KbDZEOn@Bq9dK4kke{0%4M&hu8E3t1oqx;{i60D80wnXR=9k&
z%Un2jz<2#dsB2;(og)ViN<HqL=QY=V1L^GHuNj!SmNYR}ABA*Yoqf9NL#$QPTz%Aj
zTs~3!gIb?%7~F#M#F<D(W_#V`YsR-K;5>0U(h=Gxqa^!9S`W?>ry`wCC1<Rj4BSnJ
z^TgSfxO{##<rmyr)cx4!|LVS&NJmHdPtVG%RCTEPq9dJ9-Qf{UzsO#w`=TP93qO4Y
zzV8Uohq^De1umZ#`lr+xoJ&5yIp9pBW3MB1P3zQr+FXAUr1Q3Nza`~``yiYHPDMI9
z^tiRel0uKeIpFMlxP10J*<{eok+lHo;+RN>PdlKHZ_i*6)Wy+}&TsispFba`=0IH>
z73(yPTlXKForbzNwmB}Jl$nhedR&Y}pe~MybY7h^yY}1T-U_ITqa&TDCrP)At25-G
zE{=+H4t<{|Y~tB}4eH|9X1IKoUbj(AG`z)xx;Q4%>CEcWIP&QBGN_BABb~>R$Fi;5
zC0(H|j*4_rI@c7Y{yVn`>f+dYartaajD7v@joV_Vi(?|4;<qt6)B6vVLtPvl>HLUo
z*X6433W2&fD$=1%@s=;lh&l;%acnv+pLk{NefN&b2|`^Q6X|eH8%X{*^j8_`;^;^x
zQQLXd$3M?L!#Utoq!V!LTTr3ROKUg>oNbEBXKG1XnETF$E8!e)CenEwe(>Yo9@7tS
z4mcg@9ArLR8ygx;fx1B|(&5(5i}%@iDILxMXYaw~LzN$h(K*VKG*^F!bQWbs+ZpJ2
zM$gqBBAwRtjvDiiM?ILUKSVkyH{Zu-tWMXSt3TY0%V(G2>P(51r#j~950OqrLXe1b
zO%?ZC{UOrn@sBLIb1(FN4{|=i5qRT}0u|{T&e!vlS9ZKPSAVz*mk-;BPvYswmZ-V<
zL!^`ZgSkxGH1!#r15QUeGludmGH)O4fpfsANT<10dIw`XuoKP!XPe;ik*I9<y(D$#
z8PruWk&ejjFKoxFEB8WOB^~Ls-uxZ=qad6Hb(K`4v-peOtxc)nf1s|Cy%U#@#ng=!
zifUml)KxN(PR*!(&S$Q@Hc(edM>;oIE=_qM-*}*|l8SWfrM9*>W@w2)T_xKXm(Q5=
zl*8G0{)bRk$wWHiXS*%S!<EP29B?|)S$O15fKltw^>7Y273naY1164bedG$~fU{}1
zd@OzWhZUE5J%D;qCel%HSTDDxGHw^ti_($KrQW}vKjiO_gnCgb(ox)_Tae$nnIFyp
zXB*-2;XJ<7U+~_{D>w(7iF9n9yWc3X8d^73zlwBH#3yNmvDJxl^{Ytd$kMwVZ?1|2
z&(*IQ;_}&+q5iw(kHUtz`c<UU|4boYX6Evlx%yS4lUZlc6@5dmVXl4^=`{F;E0})b
zEtsocHNfRlnB!k8&Ev&CSHFsMBxUTP<L@~;&eg9Xog)ux?<ou{ADOFPMLMI62jh&{
zLCSOWt2=P{=mnpA;xjg$J6FGobVkh*niQUtewwRaMLG)(H5a?TU%nmA0jDAz2ZOzh
z3zE(z!#UvW?YMkWo1WcX_TB$C)YCGNPW|W$xBeAAKcSwMj&vHInro`@1$JrVl%6<q
zRP-tp>G&y2(hrz8Ily`1Y<*ll?=HkF+>pFB4C->3Nav(q|EEXKEM?$4aXQio{S+LM
zwje(O&J(91o%#z3^peE^`EZ^%dmAnvnd*H-oM()E;5>0A(s6eE>TWFXT@}s~rz0J9
zMclrmcgxSt)juPh%eB3ZTPuDA&(%Nc;qtjF(MCHU_AGm@{u$|*zD?6vetW;vT>UfB
zQQ92owXXRgH=IjOMLP2Y25(jyUVIAYlCyPj`79~*F|a%x_5sc%XCj>g^tSH&pL-;s
zuA7c@j?Cx$nW$#+2<p12NQYBZMa83Uqy)|-XK%&jGral2`>M3zvv4js6X{5de!OvQ
z+mbk_Gp8dRNddjrpH8};fpf{JNM~)V>k5~mb3$+~IeQB(pSK0p2YRcf7Q(sYOr&$s
zro!B{IG|{*eje$>hHbxkI($4H&LyWJo!*+5MQy)Uia{MdTL+g9mG=jq2~}hsoJ-C`
zI+M=9pF@3LJ3>7_9qAnL6&KHOnsS7Cek#(DP*h2(bhDW2TgcYN<#Xj;ek7M)iwD&6
zGm#GQTyi?nVJx>gF4FUzGgU|bO>0taEfwi3Fc_g2FAYn!-`f%CeW+ZUy&0F!j%42<
zXRpXhsS*8Oxt?&XWg;EoIq7tyLp&#)O41>ohe$jpy-f?35AmGzSfn$Lw`!RY7q1Dd
z<69ve0}CDD)3eQ*nh!0GC-Cn|mqa>W#m^t$TF3o!q`v+}Rh$fGn<lw@cnRm{^0@nN
z?^WBy@vwN^FZmA}_7swIi03>S8b$B@&(`ql+L1_~8rGnP57Jq?YLCr<rpvV@Y0m<G
zzog&MB<T?EAG^fV`=3U*2PN0a=~);rd&@!6A<k=|F{icY=!Uw!sB{5JgZEgu2DzMx
z<2k2y>P^>`2j!2)Yoq7_L$eH$4skqT;mJ(}I=>=z#i~TDfA$}XhIAyS<~@|nJw6Zq
zuB0HH1&OIc4Z_xMa<^*gI|=^~VQnIp4{=^+3pIx48#o0P8m#}YVf0%m1L+u_m;c_H
z`tcWst8c$lb&ebj=?rhL-IeHg{2ZK<PC+^jyM>;#Tl5|KteQ=!ZB7kfZN%mC+dG0=
z{%GC1gEJY8YH45W8A#_?*uEmC38iY;WPxAj9=%;cLpqUV|MJ{tzuLjM?G%y@@wuoT
z&R*4}BOU<fwzD_j@`?E))qBFm_8FYp&O|!g-)GGup3l1g=eE<4&P8q6e*tl)nQ%@z
zm83(==a5>kaNd*oHSm13t;gkai`Ts^c;Z1eJYTU$=aE(R3XgI@C3wE9kj`c~!+F)K
z11sS9l0-UQT~@Wc-xt#1`D$B-%jX>L({4uits;27Vv!E#yO!xo30Zvbd|4r#Bn6x4
z%S#`p!Sf|a(jneIxi`-+lP~B$hv%z%EiRvv@nvH}30H5!^Ob~j=2fL`{WG!644yB0
zq@&s_{NM24mTh;E=s_p_lwZjso%j6)+2gAkW8pdNRwtJaG3Q$?52Co68nod#O(*FP
zKL-o{vZY4${<VYW)EVid(SHnUrXCiD=Tr&l9C#ld{X{u>7M{}qHFEh7=OtbKD*B*x
z(ldBY(~-`JkQ80R)un8BPMwjC_1^O@q`MlW;5k)7I;{Kd@`u~*Sa!z0^sJxG5FJp(
z<zq9YFnje}1#QK3$MB@>f#=haj@Uhqo1?NTJ%!&kaaU?5oN-1vzWSGPZG?8!z;#zb
zItPy|{T?&nzTJS6;*;Ab(J`<FmydJy5$EmkqnYqNOeg6OpVJ3HVKMb*4^6`R(37M?
zyq{hBzi+J3t?h&Np*qs>Si9)szOk-pcpr|h#^u8^5YYd?!ZGyAY3>a?{+t#$Nat_Z
zx0W;g9ggr`^+Y;r>iM2t?s>lw-mB^)9pd%MZv6MOR&ONBb2qQzX1T1usa53iAv)3B
z3H93_oZA6TInsH<VfSUl{QZ95Fp$oQsaNYAI#=s~Lq|G06eE+3kI&x+jwI5t`{;7^
z;QIt_aJp4+IscA4^d(~=DHEJ@q!Sn)F2GszQ?|d{Bt-4=>0VEg4iDk?ji{qthKKAr
z&w@ikI$=c%?)Qp|xPv2)boSXg_&J6tCWAAjOfF~Qyf_6iDr;P_(!pUP9X<OYp^-27
ze&D1dorn;L$Hm7Un}HLAbdtI+@V+njExlpr?Zel>p`BJF9pd}htKy6k<LjB?gDS&q
zdgov0N+O+G7GrLP4FzG~v?-ChUc~X3h3q@1J#YE!6~X(zdsR9&#FBJ~@3E0_-Unwo
z1Y!?-7&a;%I{VU|q(dCfGMmb$ij)rXTZPQ#QJs_=d8DK6RK7C)9mV)W;ZE;UpEE?e
zSK{)S?CVuDY40yLe|OJWS>VT=B$5vCxe(CK{qv4T{;E`^`Fll`lly!~I>da|3;b96
z@<}ldIGRXD#hvD2Zf9x=&eRHAKF5x;!Uc{m4dQGp-kiqQqgIG?-n%MzoEMGZxgzL)
zg7$D(l@HR%iuVjSJMhTTXpMnhQBZ2DCP{~z@P78mcFMk!do^*rT;AV6!?FDok`D2D
z4S$oI$1|k+w%*nt#7N(zfu)Gcxy|N+^29dNrlO<i*K-nH8ZeN~{S~qeTVme0ae7=?
zxm?O?f`)XYZc1(1EZHurC9rtW#{GudDM*L-US%!E<#T)8J>%rFG}hwFr>aJ7DePb%
zopbRmyX!jBgTSF7oz?+PssF++-%J{^jN;bL5Tzg;reXuHcTVbvvs}Y<BdeDdtYzf#
zA-<oP%VW37zom76!$dldM8xizzy00))@`SRzS_LYR!FDWL`;S|uVyf=@ohBM_Z7qP
zNQd87?bVLJvHRc*EXC#X_g7ryKqvbWI5|j1goFF-jVdcCWfddMWgW8RJ|rFDd*eSb
z`|m66a_WGiiF9ad&sE>xG_V3^N`YKH#PNKLT2{4t6H5%7LZq`qiZj>j*H|w&K1hcq
z{a4k<UXZsV{MAI7?1g8VBpu>&;q}>p=6!5aQjBRDXMcTO69-9$n9sqcUyEIz+)#qg
zi*k8#ITJs3xLkt8uSU$K#KkN=uy8hW8Iz<#98Z7C(y+(duKs|}cRJE3{I#pz`|Fcp
zaHvS9G{nRB-UFU%;IQS$<wKm8k$n0smG70h@O^`cbWR^%=H=PdbO9VX(pjr}(UfmR
zWZ0zH9*@VD9Jf=Ej^WBp`Z~F#Jf1F2$qeZZH}(>8`4I1)sAY@)lb3Xv*B8VwD8XC0
zGl`@_d@klI-~6T!SM(4ZXQV@{15qdG5U;z&|CV{)Yx2#8{)gj>$>l?I!t^^?KQh&}
zf|G-Ei04;&A{}C1M|Gt0W=8Sn0^T|)nAf;0E}z(IhpTTc%qq=&oK~wyS>B$5bPh3o
zO~)SHY2W1g^h}9LvbrbIIZtcj?R+Ye0)JPkBb~D812oRBCZ;qmVcyihwAbS@xO|B9
zS~*CESl8r<bcl6L>LeZF^X`1x*F0%SP+hU1;?WbO`dg-?arqGIqY9A@u|CQN>DY0F
z^)PMttzrF36X_7^Nv5Q5`4HF53y}_SUC#&Ue5S5o#4fFUF_#b0(G&W8ENw)+4*q_h
zlEme6OvC*9@+aM=cKp1anrJ%jS0PDfKH=|oO7+eQuZsKJQ+G;b9L}lTTu#y<J{J-D
z?=LHjbGovQ!~bU5z(z#|Nr(8k(=gOJ^Zik#x5u*5Y?EKy%V<bvaIJU2_<O;TN&|&?
zDrZwaQjpF<k%ZFkE~Q1Ecc0neaKCDTwFq~;oWk~1{x#oS)LXJhonP#YB?IYvS?@8w
z^>~JdP?n>T(4)=QXh?_ndjbXNIOqCxvc2C9sMjPlwx3JwW=Y`k(ensycos4I%r^e+
zF@qo6gAAl|BrC7+O<%YPI5ed5rBdpNx>4ZV?;8}Pb5m`~zN9c&0LH@-$K{h5Y#}pA
z+r9xD2GZGN>YJuyKlXm^cN?VB`mopS!i5!K;82jxrRH}lD;5kI-7Cy{WW(J(!V)8w
z5Apl_eTD1~TD#gd!TLokNr(9RGsRG&-^|r)1RPJK^Y<&m;CKc*$STN;IpJ58KqKi8
z--pVjN3E{al>L&m%<PQ`s8paJooG2JyN7L`3xZvFR6aDHsAq|i%b7SH>lK0mVSJ~y
zQoMQ}+!pEJW*{Bn_h%Z?A=cqjkdE{@1@-hj>1lAiSR%N5hU~QDZ7=Rx1=ov#bcpX~
z8qztp^m&HfljT8aXNxk+7WN#XARUYTslFJyc9-?F+VxtFewM6-<nkeYPp~wpZ*tCD
zrxKm!BC%?1fjE<-vykw;h4?whCg~9GXX5YAWXD5vSjL@-Cr^J)&lr3yCCU=%qLUmC
zF(1i;lgUf2#eO*Q^ZY`Uf!KOUq;uCHYPZuZsR!^oQa6>{^&-yeu=$ELTes~#4o(u%
zIoZ!%CC6hO0**b>@zptQ5v>ui6dZY^<MF4;bfCLoAvoQ_xO{kDthQ%FhfJL-zkU0D
zb>yxjl8!aue$KqR$$<aAb{mVu?V>wP76-_ad`^k?PtB{<B_m4BPx<6*|7}qJ^>cva
z{X@L&Lg9Mc`mM)qJ-qB@sJWkFl}^&35azXVK(v14K;x2`vY^$@FHXHkBIyvvWBE=+
zX>>Nz@6LnkE*oQSf3PR%2oT02H+}on-FIcqXM6-7KD@QK%9Er+9M2M~2a-SKrw`3!
zB(jz)Ee}vfI{gj(1sm%{Uww2{+_`s5>eV>O`*{IjUN3I=ln(ecbyr@9+h!i)`HJj&
zgE%jrWs{Td3@4moxo=dQDvXeCBRQUVgz>25*f0YWx<2X5Tc5Z%?1=@7q(i))C8mqt
z1P#Un?|Pj7Ggt4Q1(T#BMi|e}z1g?=7ALP+#Cz9hou>c30g?_epY1){c<v+{FRk{!
zdGA{aYcL(@3|uLdbQP`DH1zT@8Jt%@bw)Y@+R1GTKlcA(su%A_`g2!H3F)vao^&J^
zh@}|Ke*9ylka2r}<a>;m&ol9VJx199W*0t-(^Ql`El)=}MhOuwva_itc+@sOf69}l
z?@ZDWBwY9W_uqO?ZyC)zIhNnNaCyO{Ad(L8?~4x38+Pt%@-$uRZTQ?5RaMYQI>dZ_
zwuC>u79lW29oyO=UnA;4MLLdt_5Pn$&C58l)<#Dwgkr~DK<@L4xPS1<7lY?*;W8SX
zHw=Tub&RHSNIJylw8?`{P;#a5#=rl4E~)6&mGU9!5c9b<prF|{8tqt^_-vx)^2{qu
zq?6VqmN?d)ZF5q+)p2d3>*FaQa`_O)<J=!Bb+aQR=jfHmlxwQhOAC=s@S}Bhfp_kV
zwO#qN$%nQl!-u59N4TH+zr@I83BTm1*c~}foi(}Co}@#Z*X_!UKe~bybv2FzpOnaa
z<04PeAwFM)iQ`W0eg{juN}5>#JN4}~Njk*)r@ZT~bS>-Ks&z-cZ0UBqQ^i5jA<nDp
zX!ncLi~By7*=al}ei9#AE=caW6F<NF6lBsjr)Zc3Yq_vBl@?vfA?Xm`8_z0QyOQKr
zPm32EaFKj9Wf(-#Sx&g_!8i7|F7^6hR3`6xBx+BInH4ghGpfdFM|b@`dAxO>p=O20
z21%r&o;059=C6O^+TVe^UwMCY+eprfc)b*RAI!WI*dSJ}&@A6wnAaSObS_oMY|sjl
zk}YvOIQZ1B>x~uCIg@+izv=zw4mim<+y7=bua+d~5Z|kd&d1(h+G_Cp*psQK_1<Fn
zlmNN=keE;F?Y~O@R>!r3+XUMLrRY2_L^@%o@~_n1c9Y%OQr>g8GUkU5Nr(7cT%Rf_
zV2(#F+>-6Y@6sVZ&zYn{eBOO4uaybxUfYmxaoy?Rmy)vTBpu>-<ov!CHqqZWM@~MJ
zzv}TSPoAVh9FL?`L*pWgyJ2D99ej@DzEd2SkGo#8`ZxdT3Gd2@$~)09CMDjIPSPRH
zYh>c-l^+8^#&$n-E@$<K{)r{&5Z^y>DnCUfD$Hc78Uh>+oEP$SCg~9Wj^h=nT0NWm
ze9(*{$C5kjv%{XGL%g4p6XlF``nB}(_MF^4D<67W9_bjqa}Cwuz9u@Y<vz+Gv!Jk>
zpWOA5CcIY}sji}jgbog$d!hDo7bgcF*?fq<8|!vd+}{=R_4Egqk4^Q7XB72F&WreY
zYML>1p;vT$jgX?zi6etQj#`m)h&j*XFhWkcYo){Qev%{|enLJ5`ldk#3NG=cW=V0M
z5gdI=)*+7P^9JsHCmq~mQbJ4YbwhUBw2{1CL}%yH$jL9S3XZ8<TFez-FVY>0bR3$v
zoY;(ATES;mkFM@h<g_B`5a08Ek86y_#wM0m@2m5QatwK)Nzx(C>+id1<6QUuwo%P9
zic3w0-c3=+-OofPuvKI9=M9ZNvCAdLhW76?DnvSBLctm(nx<Nz(@ilE8NaUjkaQFX
z_s_$Q>>;Cl@<VG~H{X(aRF{a&r)-!lkP^-##2=`*uq8<HH#Q&2lDf8Ac4_=tQtz7r
zYuo&>`JAWpKhR5Gc*RK}Z`<FTdHQ7YA+EpkE8N<*;>gLJr^gS)bW|#?4<eZ}@$>6L
z_6mNFk2`cudHzieO}hJxM$#eP&%|{HC6W&DJ|wOS56r{e&%`?XbfhD5aG$5kMZKf2
z{_c!)vM-nzi8l8qf}@0VrVqWCd?6>tg!R(_K3qQ4EMaQJQI{Lwq$8b;X8MOb3QXH!
zUd~9T*TlTM`0VM$dxPKaF+6+YjS@+Rct4*|77*66S;Y_Y8t293v#P-O=}?bY)w<L_
zfe#*ijLRYE5XU3&+SXO(n)GJ#xYgg<CDkN+NIJyl!jO7G%6R^H6>v1MPC%j{BT_sa
z@|ohn<s+0;);zQ^_W?MCNGEbMDF0Zx(jYiKNash>!=AqzUmHT5gC^2hCoNz6ueVna
zoGETxK4DSoKbr~Z2*JDxkxo_%m+9NSL)(g6d*;U`c%Sq^I*fM#)_r!)4`E)KNGGL$
zRWh(5dObK(T)2FCL;1UWDb{zvDMUIiRK8!%7Z@4?#|P;QKdNZf+vL9&98IKCGJfA|
zWueBoJYGSbtgZFGrZ{o=^vsjH`YU_X1m3HKNJk>9s9anvJO%cV`5>Kk@5BXP!p*LL
zqlt9FEAyD8uWt&2GsS_+=V5iqD;fKRd%-D0I!&8f{{9X%RW=)-j!3<{v%?4J<e$|G
zw@WtL2A>z2Bpu@CMXcJ^uf8@8iSXXwAn6c4FJ7iI-4<4<g+o5&|7QOEzkh_U+5g{v
ziOyN$i$-EMmf6C67=(1bnt!2icqOlfeDp{<#C#N1Z0Rd;T66^*3epL2IOTVDO|Aww
z>{)X85XVF9+;c}R@E<Sa981z6=A3wHnMwIS_4#n!t&mRASGCvqD)aThkwiK^l7@P_
zx9kxHr|mDfe2DYv`+ZTct=yp)oLHo@^32_x6Vgq!aJ{TZI>hUB`f9>Qs@(D$;K(DL
z$BoyeI$nky1ZQA|Tt39{<m6bJ7rD590VfCPgq{i5ZaOJ=0=^&mkaURGt7=koU#n`3
z6kIP&q|=n;qq*#dnK8_3>JKiTCs%e}mN^^|0Zuv6$#v3{zN~Q41{?;`5r51vqWxG(
zf7REhJ=bo0zC<VK5Oemo^p|+hvrKrdpD@xP)-kewlgpVn9=mkbSFV%YmXHsVq(i))
zw<=xU;BBiNo$w#^^LP!z#EPUt{5^s1%bv?qg1U=Sr#`JesMGsNlcYnOSJ_|F{J#gq
z#*K7WR*FuSn@&yR^6^OClGQL&%mGdz(ur3y_mC1(5nEokp+>T^e76tMSs-%!)Zj6l
zNN_Zfj?G=Mv1|KMM8KJv!sQd57~N4ObGHVZLZoAyZV+T~gO>r057M#D7wFOBQJD{p
zCepcmG&*Uk?&mmgrY3RuC|%q&qj7M}eQ*kqj?tuDM@e+A5;#6cXV5$0;Y5LS3OJfb
zM|P}ubHD8DFgQ~axO}R@DLdAS*E|QO5b0z;>+PK^^H&AO2kAUp`M1;W!~<S%G?7l-
zwb0q(BSYrkO#Q;;Gm%(!Zz=uB5^xHU&M}3bZ{F`X6#<S9(qT4=$=1BH?FB~@>4>b{
z7}(vXVgSz6Ph37zaz3}S!|d%A7C0$Czxwn{A=2R#_#+i^GbH8x&Xx9?&hG5>K{|4p
z*IK9hO|v*wJrjrvi89edI?bkC57NcTwZWPCfy?KO%bK`S(?w&nuG#x4`|NxQk<N+D
z&)yfc2up+GgLK;R2DeFYuB9g%v_|tC$PUsZ=@7qf6p33M;*0*7RUz?b(ZA1)Z5&AF
z=f_;#h<iu8mY)=_vk<uciuIjb&cyF6YOl;QKTB!EXf=c+>dLErNhj$Lzqg40>JxHv
z+|>j5IFodU`8;rTIR7%>@Da#I9qBMMg8LYJgUeuEQ{TwtL!4KE_3ocj%`<{9uR@Xz
zabB0&-}zr1QjUOm1tFbzD|;1&uB`nI^P-V-i1Xrkve-N;^+giQi$c;N&P#h?)_?Yv
zN{3-y>~V5A6P>MoVhe6=^HG6$#gcT0^QsrGd&IdkP7~&3MbaUT=U-eDJ4?839n4D}
z=`>fY)Shh-6oPpTjFHQSIIos)M=pu2--BRY=_DQEye@y`e4>0Z<tEI_6X}RwF#CCF
zOO!age>6!t#P`p^oajyemHC{9d?ZOa#C(iYK1K}q*<68q+D6IcOw4D!Tb|VXsMv>)
zPZH88_@!SL9sJ`N<l{`zA?A}O{cUxl?Jon!hepyN<|Fr?Qh$C>k38f<A?XnFxx;tD
zDE@i<eaMGBg3H<4wC%#O9DW;_uJ&8%@BCC^k<L`g>g9b)rJh1Q_9Pu*J})8$o3Eyy
zSPl8elXQsrcyC>HL`}Fl67m`Nip%HpMJ{zgO#wNWR}M*sIIj<n)z((uEnN=t@+9dH
z=Oy3QDm@zJ;0W{5L^>jjUEl4#sxF4-f`g<(d@dfkevIm{SZNCRbPtounV666%i)<@
z9$dYUPZCLom``gV|Kbjl+-;DLGtxQm?Ahj#L#0aaJCZum>7z=^--+@HvsT`{w6|{G
z;i(~9K0<}%WtTm*tpn2Pewfk>eiR}dBc-=tr@ivWAZH(v4l(D0`WH^ib6Ceh&U#3P
z%c*-|<RANEa34}gI>h@>Hs1JI*}a#i;65A}#N|9*d03inLg>n&`Ahe|%?kN19qAOk
z=x{0Yn(2m|ok=>xobRg+cx6=4cR|kTSm&qwlLg+#3NGs^s-IqO>pnGr%V$c!<|22R
z>_zD!u|pos4{3!+r}vVv^tZ-zOZeRJA?XnFnY?>@|MP^()o|VQNIJy#&yCrI;)y-m
zcqcyIpr}YRwsMeki1p8%iV;q09w~Xi^Um(a<@}kyU40ovMjoDbCeo2H&uR<uDL4-I
zA)TZ{%z1ZoU;TFO1~%M>l1PW+{nMg-t#aF8Jl%cd@*$3ALag(oVNv+p-#h6@=S7*F
z>3-KrJ-B~7Njk*)=b@hO#J2w`&ceLZNjk)N{oZ}A+0bd*6Uce$3of7fAohh=6;~G+
zPdU>0y@ey|igmvtjE8}A-deTrb=KSnh4&Agq(jU(iEF?*O43IoOEz@LKUrx873rAe
zofC4je;)zYo!v_=XX1FmyGoub1zf)gIWtK*#Ov<1FGO)e{t9Er*$U}639`GkN7%oH
zdC8M>i1UgJ+rKK?{m>tnSNCUf`4H!|lD)}Axi6y%=9P|gCg!_)3>~Q&fq8k7bcplf
ze;m$^6lqV1(i}??tf9)NBOQgJ=FJoZYj<$QKatCaIG&WQPaZWq>5st4K{{2nD~C>`
z&xnBIiFEWo8lT!MGuaM~I?@sSb8mX&%D+Y6jQ8O3S;VsI&x}wt11AUR$nNx8vT}-N
zH8`F~XUSxbfas}Lg5anlojysnr;5DBAUNaQxO}>AZ#4Qn<i`n44$@gLJ@c-e#T^We
zC(`*MRr%PZL{k+Ub)=*6cJ})D{`bb<jDN)CBkI4#P9Z>o3!EIJQ=n**^+0*sDR4ZI
zPI*O<!@a;H?OpAsxM`=mwy7hXlP|RYUia)fR$LX8-ryB3Jl=)N$B)68bK*d#J=7=U
zAe}{F9P%E<pDn@hL^{rw?%g}wceO>ghD(Cmr1g?INr(8kb1A02+ob1a9XL}T$mK(H
zI2(Lzlm3*Ifm4ojZu`kZ@b42y1BZchbS>7<mRnCugF{C;eJj@#DJyL11xFI;7z~E@
z9CkbL4xH{zT+VOa=j7yndtnJqI?^$>;9k2@J#_B=@kBZex`mZx2gh1rJeo*n&%MXY
zAz`_N;BX)v2f<=}@AQ++;IKMyIp2>9bMme*cmNI)>3m-3V-Rx7QWG32r1S0+ll52m
zOCvb)NN4ua)#vd>%*EggyvOAu!d*kLS1{WSP7czEpqK2sLwooh93P}}U}xv)&bJ~j
zq0T{%q(l6k$>Mc0)Lv1y1{@Bg6Ms|o=Xki;GH}Y<$>mHOPwD;&kNz_pPr(U7I#GO=
z!_C!()`O#mbYvQrdhe)d`2Y?F(vj$L9XxL?oC;2P8!n$6%hxRUb6~+-&Ou1WIAEr5
zvxCA<7>^#(X}8?4<;lf0cfjF5I+N;`n{*V^M!+d=#pUxK*B`$vn@&uC6NGf`uS|Fv
zFxW6RFFmC5+x&6iTHE0{hXd)P9QnB9px*6mFt73!Tt4z0M^d$7zA1tegmnBVx7LlW
z56%Wh59xI5kJFZTH(mq|2h#C4{`6$X)}JBZl)uB})4QtBR?PpV3e<fCAsykJ<@LgL
z=Kn$6mmbpTU}?U0t<l!AGTiEPcviQG1L@=*-yR%0mNw?E^6K-V=Q%p%&A5E**Uih{
zZEO4w>c@hR&htw(#n*X$JAtEzbhfSPxy9AND1iDg4y2>qY1DN6wYwfT<xRMJGLP=p
zq^5TGul#<>(qr2e>ma1#KeQoGMz~=sIC@B@^O0+(5Y<G#L1E(5OliwF2hy<{QB0aS
z_&yq(@<v=f0nJm7rM)Wj)Z33dzUad38H9Ak^<U@i3aCv3M-S=TE1xgnBsza%psVE;
zYn?My97yN9uGo#wJLR{7Q~nm04?owIuOo5-syaqn2JA#_^@5NNv7fLW(joR?;6OUW
z{t4x5Ts}K9K5o4Au4S&zKoHV-nK^YQUtKH!u9qItSu)zLN*&|73=Rj<ImvbOm<8X(
zh2WGo;PUaX{5$n;wuT8#5Yp)w(C0SYuw@H4dPv7qPuOCi>+pQIpE;0@?{|*wS1&i6
zgYlHV!R4d$EjUr|;@AB!o*<;7nXdLC`JF;Oj7JaYG>1H!`bj_00}cn$89E@|d1?9j
zPvDf-<MOGFy|DZ2vNG|xe2|XQ^=yv~=R8wkJbFmyv{Pn?5>-1N>TNiXj*eZ?{$rAd
zjYW0s+9vgFs>)yE^05^a2v%R1-v#puLONWkDs7qJE8-z%J)~o@R4c-+k>Vi}5wTU!
z%`uMy=|uDH&t~=&MD#_a3s4%o$I9!-<wN{kG)mj;pL*${JCHMjq(l52fMH*hCA9J4
zAIO=8bY%Ld$ED7xEdz&wboAOCLl56j=>&)Mid;U#d6kLP@xCfJv=$r&(ovP)oi-io
zeia-V(n(2q6gqF2^<2&rq@%>D+}WQNU<LONtCn0o#QVo2_vW5}d(CsdlQ2m-#GEY`
z$2<Jy><ov$2kA)X&DBgVj~I(;aHvSf%T427;%1X>aM&zz`4H!2?ArH6;F|RfaF|Hv
z&H78Fk`m(Qz@a0ZzbB%GpRc;K791+lId@XntVbYoZr>lf2A5B%WncHnYpcRwJWQn1
z`9#b6(P+R|aOg;<;jxgQkvCr;I8>xF+Z36%XT5y`IP90WeDo?VJdg<yn)@AziFE8+
zm!2?-S)2yrp(7ogO_M8XYp*N-hl+F}r5^5>=(=?Y9QF%bKHl4W&1#p|G=sxLI<_>$
zi9-I<XThN(9fv7edVlyT1#qZH$6iWVe$Dd1<M6u{yBe2I)B*8Et*bhd@Vgch=_Ht5
zdQ>fQQ4PNT(2>poVe!40?f)74(NpF6F84i_O43mxbgEfWzTu}e%OX9JrL;=mDf0mZ
znRDmmnFjNTq!(F_e|Rr4l>5sfIUeGBp7{4W1L@S5y;S`(^xvY!Mf%|@+q`CJBpu@C
zvdvNZ@6o|Yb=*9wqFYa{uO*u^(dlacv)3lUTp7;0X{*BBhy5S;4wt-0)d43K>BQ<=
z9+<kZ`T{ssNay}$)8>t}x4&d$y)`UdrnpHG=?vu`{CJr1`tttR9Y;cC5_sDxarta#
zEr`tcI^z-(|7)!L%9plSq!Si-I#wyYmD=wde&+C|FkvgCGk$E(@6S~)J|tv&@H_Lc
z_#{a>#QVoJ=Jo`SbkGuYi%<=5Cn4?b3S2&Z)r@HK*5N|y(5*i*<CT+=kj^4*EvI+R
zd5ICG3%nP{>|JY*bYAxS$PwNW|MD_tVOf!k&PREq!*ed5*>b%<cD0n4(&HztrrqVZ
ze9mrvr_FUTK=oI<`*g<UB(Wr<)4L-5SJu9aVzV`sGZQra0eg}TaUVyf%a?+qziPEj
ze0fIRnm60)k#vaf)g9wg7dHp@Tur&G=da~fH^xEIA=dM6-m+t|FeG$OM8(~v*}Y>e
z?B}?g+txf&X7ft-PwQMC?rA@!!X)Vs$HO#y6qe3+bG=p7uBxgtEKz%s4ly5_!IHmT
zvc~i4u8UU|^I8YUlXQsv!(Zkt_43Y*kGUROE%;P2q(hUWLmZEWd0Ep9<Bt{Ye_Sqe
zZu$Ims*GID#J=daHvQyzeDLCjvj*S3Y%HeDut_?^@eDt#NNN9g?EV19n!_>ot$UbA
z$CkVCbZXAkn<>i*7HDdJX`&;Y#_OF*lXosEJ@;R^?)>qnRw_w{_+Itdd2`m>#*!z!
z!KbS7{_u2LDY=}9&YMq`iz?f1SB*OazWZ^u_EQo`hnREMyInnQ^G~zAd1e~}lU`r8
zM>_SzK8cc7$A9Ub8CsJO-Ip$pblkN<7exDBoV;~srSELMu0nSSE}xEauA>5myIJm0
zmgcGpxc8)!bcp%XxZ6kgoVa%4vFej~*Y}E@bVfR=hwgrIIVhO3L;RckR;O?Cm5|Qf
z^x-Oxc@DQ4KJh!WPj@;DJR_G6abDAV|GCw=Tl_V<-m=5X=ut;H(s3Rer7Cu8cVVP8
zJj(9v=5i+K5I=XQ)3)97R_3w1Lz`a6E!gW$Bk2(5m0mi}%RGMQK~P|6!kyKPYbYcg
z;`tY^jCsPPB~lnArtD*($6}UokaURS$>(3!YED%%?ft-8Ht&j@NqI53>qR^VO7TB8
zC84Y@s@35#SIV_MPo<M|h~r7o$Un17lW)Jy%zaazxFT(5k`D2_60XVVJKLrF`-S5U
z22{>l8g50>A&$q{U#&JiWn^}A|Bbu=b4rjTNr%{1pSSq=!V4;%|EwA_Tne9meIZZM
zA&$ph?%|&b2cBAw*zoVI+N*fGi^yFsVm=YM^4H4p9^Wu4=*v-5G>T!9bco~e3!(I?
zF;}kJ(Y9c}Kxs`7lcYnupVQ9{AEqucK9=Mi$y>%ZO=pmFh~t@GvPy8#7wV<GQ5#lM
zA6W*_kPdg?#<)B8PbWUgUN&R<aj_T$>D(`$m<V~XO+ZE5Ed6oF=^d;>a@UJEui;jT
z_kuy%tp&o{So=<khB1)N_Z#;YTBe$G|F>FD@ce0yNgC3*V=KllEBfN&%OA3z_gxb`
zO+h+r%Ps3gTR(;jKc-%MlE>b_Dj=5+@q2IlM7)5i_F3f{!7F{G8)|)GNjk)wpNVy^
zGT79{d&IS#5>dCe!HT3qd><YPE?qb>c=h6H!{r?}YLX@NNIJytQ49D++?pE7DoT=%
zo|`uJxkw@D5Wn~C3|*TaN7d_o^iM&oC+qc*?x*B(CgyWK*LH!>?if3+Q}b0Pepq@Y
zk#va9yZWkypME+2dsL;iSIam?!8ewqLmW>uuY}3%m`x7;+y95N`;Mpj|NqB-sE`q|
zLq_DFVPs_Fq(q_+AwsB(jEo}E$&PS}j7UdDWMpKebR^kjuVgFP$|ioF-yhG{_i}l>
z|9M;<{ntO&%l&?PJjd~PKAz9V6N<a7=VcQ}2Rwetq7@I7%J?vFZN-Xz@9cYuhjhU4
z%FB339VT_*R(SVOd9~~>UGv3gIXhGg**ei($lUwRptOuj=1V@L1NLPvd@d*WqOE+v
ze&N;Q9-etbNC(VWph-~h)&8SfO$)01JbW_L1V{%QcmH)o(gn))NaXk>Lz}F4vLd7d
z))O2n%HyS?Bwb%~?U|VI;Nt3Aw4951>iAMWIjx^IH7d-)E02{yI^gfa)IL`qNvS->
zKkn|r{cA^N;~^ceFS%H<tFGV3N>|an+3CSzMH5H|y#8b_ZT2WmU6Y9l(5W4$@|z<-
zI$%8<>}Mrq!~f|$xIW#dW^&gAhv@VUpE>O|O6F_ZxoX2ft<FFxf*UXJ{2~V54Idq8
zZ42siYcfyzE*=W$fPG1FyEW4lbJ{14P4L%nI6Tlobij3SbchbPF0QT+E+4Qja6gw&
zMCWp1mGM=_Q~cO>o3$VvaJ;~MYFHp0u&;4hC;D!eEGMRHYdq5%rN=D=X!(HqK#>p~
z_L3CO4K3M=*uEZmh|ZBkN4wA<ejUtVL3C^@s~A#PILEQ?tGDE%<?~tQPVm)-XaDPq
zgy;x;qmj*bc|L~Kqlf4$TAPS`bMQ&U92P{U+UIBb*c+d+V_TM{V%>?XEpO2B(HgG8
z^WW=LJAB2;=Qp=aAqmj|_bbsubfn_c;)0mZdtv)Tupm0%en~BPX!(Hqo{$h7fi2rO
zdbf%H_N~xEbfN=CY>tIyp8N0kL3FPBefpslIQb;wpMvY3+np0FxoG)x2q;TX>N#Hw
z%{rvX2U4ey5S_K7J~6zWRBYIMxE`Wo&+L7gGD2FyuJbIA4tSmC&d`bE|H*P5%ef~9
zEg!DBNFmKK;X$mPct{7V2i#xJ3eo}ZJGrGM#^yP#4Om}-h|W!|({{BR(tOx{H$&NI
z`LxLI|CQe@@ZUabWJHHA=vmwJKQSxpx?zRrsD4Ztrpdf_0qaW;(YYI3XQQX^K?582
zq1SNvfa8AC$&5UHUttCtuS`e>9Crqs{*gd|qotT*hv;nW7}2^TpG$+~gGY1*{?*PN
z)U?yY@|nm&%ZFy(Ep2OKtOs-Q5gl;<6fZ<4tV&+)!z-3!Sk44U2OO_kW;dvhJUKFf
zIXFZ|N4jYKid*ah%%Nn$<qX!t<5tXhuBm7mbBKse#6p7n4HA<z<`58_fkpG|db-D+
zn1e%f!2O#juh8-V_rWAWI^g*Z?k}T-=sdqXo0`&MxsBz+0_lL`PS+8L50l{&{PID>
z(VIIqsU-t0AF!{HsuPCKruD*?56R_cg%%mdLpoqRuT<ln`Pv3t!0Iu9bijIWX41=M
zxgn94e@tn<oAmi22<d?J%=jyHN(zVgd4=ojIOI<?I+PBV59omJDUcx@u&<Y&wGS&f
z?E8$ZKeU5%z<S&+g)n}}A{Af`9?@~A`t{<}b=el|J7yDUX!+1RIns3T;b80bMM8S(
zq}XC6qys)Dk}e9hYZ6etCaKu(NTxC>jE8i<`Db!u%>2&mWFz^Pd4~GE)OD_q4mh7l
z$9I}8__lz(zv*9A@B5!`5g;9KU5a7ph2r_s%mRE%^#XTRwp&afojt&M(K|Cqa`-n)
zb8a3!536sV86`qG;QV3oghBF|k-eYJ(E7OSzGA;*1?hk}uVppWuW^3mP`8=M>kJ(=
zQiOECd@4QVJOwZABAFL)#<TW`Rp~)GU_D%A|MYcfBKBlkJ@|M^eSaVx(gDv?-gtwY
zyoPF-t=&sIKDBA9&Zoki7oa26*M8y4l{X96I?pml2Rz@?jE|X&ZL{fOju)b%9Xi-!
zd6I?!a}*Js?yF*bH~KwGFlY58Ts~l5VrBs^i_|KjS~9-be*0W|w+zvFvtKLX-peI6
z%<)2WPP|o{3Uyf{+w0z`IBa68p$O?P0O#q|!XJ0;B`i+S7Cl?om9VO&1?hmt&yTr>
z2~RJ^6Ae5Irw(Uv>9IgMV9tu#=MVU%G5A>>*t5sz{POjd6twYj<Se_%_GiZP&5`YD
zv1o=o5~8EIm;IJ%+3tc-zW9+F$&^GrM90uGGXK+fn1B!)8*RzWx&;<U2fWVbjxPTD
z>?~t{ay;3wF8u0`Au?J%WRA}|`>n0K)=SfWCbSB_BSSjibE^cM^r9`t`Uetx(l^wi
z(rM!%9k8#r<|eN;nG*C{l2e%EX)^TeARX{Hq}u7x*wHDa(pb|azkli9eJMx>ygqN3
zeCzuobdW3h>Dms1Vj_+X(gA-bi2l=*i97u@pEg^eo_SDYWc3Byc!AHY@>nkh<psai
z4EALf)_K3`HU#N_=a-c6Q~xNxv+2>op(5%B|DGa4I=g}EMtc37$9WHKX}{3F&>L;}
zmKW9m#|tkuzc+YP=bn;pT9&o~YndHnJz!t5lk)wSR+t!053o?JYxH*G5go<3!TC%N
z-{B!uhp%(GU$0Lj!;KeM4^=+ji;gS1r4Bf-H81_lFUmx8j7q+gON3sNvp(Wr9&MQ<
zVTb5c?Qz_;cG5gJ+V!^C%+gs559xsC1-?+tzbmM3tomUgd;U9JejKC&=3`@!_<57W
zl<xkt<-oEIgAwI9TFx8;Su->**L)45^RGo`OH~jd9q{@?)sY|)mNwvmIeLhWu>G5q
zTa|25m?MbjusFP)Q2e%s0dwY);PL_cdW+wl@|kt~ia8WSCt2#3!S_4MUYJ8dbPAu{
zH5k`r>ct!@M5oI$=@<jyTs-DTAvzg%!y~`BxlUmY4$&Dk9(kU3WB*6YX-PyIud#!v
zyD2-4e8(IzqN9^|qG+~7{VC?SB08Th9~+exll?De0-}>8-lp-r?b#Eo9u`E0@uLn`
zQ_QA3<_tYU%h_n^b(rU|tHqd;kLa{TGtN)rjhiuti0CYLS$oc&TBXJuJw%7_D6j2K
zTE||@5kz$8=#SSGya}1docRQ_oOL2RZ9Do1<(NZ3bZo5qI({~)zQ7z3qO)i3q4g1;
zvv!zch3NQinR7Ybl<~kEDMZJ}U5`ULK70mqaEMNgP{yskMVWfcX^BT0ui3Qqredk9
zoR~vKbU4`vE?v?rJl9kRp$!Ah8Lp5H`1{bkaEE~8PH)MjCu_f(iyUnfAsz5O_}Js!
zp|hhuZOpjOtSpac+@XVXz~3!I`nm!!#{448sf&Zl8FVzOM#W{%clvV<W=Q^~ybuqC
zbilrNE|_=ZyNmLAsAjcNSZhw3KssPODqCM7{+jLXy(z13`<LbDZf;0N2>81|DUvq*
zl-3`E^gmbBH-($?dLSLJo}-op!%u0CT}!%W<{gz!5srs+z~iUdi{44?oD6+%=F#xL
zIKOl&M902pEZa%`jj5z5C++aR+kf$p4%k;`4$a$*v+PdT^OT8LwBzUCmc{$A#O3{%
zlZoiya`(;bF_31*o_E_JI^cRgJfh=r!u~<pHBK(9o{6Vu`3O(`I+{}LEQUFmh>is@
zSJ(PaoiFCtAv(<Y#@=)nTYE4EkLbiiKQ1OD;B&EYpNK)rCpYMvCR@j^7ufUnOhjjx
zRv>CAclI3S*daRL_Z;wu4!B-)A{s59%fUO0hk1wkv79pz9dJFH9ikKCQ(DOLej@w7
z;|J0Cc)rju%=*!YY`t>xaqGL6CZ53M1724-AC^-%jy`&c)sqkDfY-z5ez{fW6gLGd
zXIDh0T8^V@VjREg7(V;5+*qE!6r=<81+LRueGHcm*jKI2%(eASZBxJBYMq?a>_cUc
z4p@)>RnNPrhYJ<3btyzd=bZ26w5)kwY|$>po!KXvm$V=qurISBc`nn#&-Y>u9iro}
zMwCzeGdzG@H|j`eIX_U)w*71_?13GJp@`1oEkim_)o@$P(L!|Wewk4fhi(dE4jrOH
zn?lWEv)8=?J1^>@(DDJ-uZAKzQw_H7cjv{O#Ol#Pbn0hzsg_Hylwl4Xq9d5>eFWF>
zQ4n+LBGK~sxPP!Sv`IGyb3zfFUFH{9XexRBTPLH1=vdaTu$|jwU5(X4hv;|{-2z9H
z_DW+;T?AS_uM)nV-yJ|3jya)-j)L561J0jj!I-0k=yYnIyKrhpbPeXvAv%9reNK?V
zPb_0j-6OPo!1es0h)zym>g!zQKiXJ5T8NIDI0G}`isWw0p+j`Qb%S-`X!+>Ujjyx6
zl2XCy2}N|k^?q824)}d+Iz%V4z0)h<%@u#Fueva_e5fA0yFP5DdJuC$5gl-yo))50
zD3M4!>v|*_tA`HJ!7+|Bv?*KvzkD8|<@0krn6Za)^&M7ED53+dJJmvTR=P-0!7ML0
z{=2^;I_qUCFUnGd{=2T$g`(x7$CQ6Q#>~hct0xrEv7J>Nz2~_5|6QLE9YY(tT@wLU
z-I9CAxs@9h#dMGkIIjinPu&xOmd}3Td+#zSs`bMj(P5Vszi7rII++V^wY4?r|J!%K
z1kw4~LwT7#!R3stW8_A39_Dtm3+vm^V1LK;1jFS6{(TWg4l}%0ndgJ8&m==S;NJyC
zzgB<7TK3vw^;khVU_B#=w5BZ*V!>EFct{7V2X9&1S#4)+ht)F?gqF_-qm0(AU;_`V
zo_t6Ltml9B;YD<C3da+idhP45zN8=>FlT9j%!G!CYg!*G_5^VAOwF$b!sP?52VkrH
zSg6~4n>UW>0`tI&PuE%?9q@by-(w|1I$+M=Jdzcnb9t@bHAnmTi@Ofir9382O$8wx
zFz1d6kE@vv^X_5mJSPI+at58~?w{YPXOarBb)NZ%PI+3M+6`LY5U(jGgELqEeD^|h
zxXo5l_CJpQaeXm>RbnE(nSkg_-e5X9a?k$1^`dl;4mj>l4LALX;(Ld&b)I$pa5;m{
zzq$%lb^oAB%n3zwN(ZADnRlqrV2&1|V{0=qe<{rEEauQ5I(kRU9PQqk>Sa8Ze89Ij
z_P6c<T0XX4ULWXqpllK1d@dk_dT)6sqyw%yoj!H)Nv052frMAC{^S#>$aqMH4|v{m
zwzw;z$*<*<2y6e26D$RBQjqzu08Tv(g{V4COAx2pl4MEddus>jfb0FP@OJao`b;{j
ztEJ=|U9TQDfpoy*P&{n4`}=OCm{+b*+=k?5&$$tu+J-~#XYd^*Gy)de$E21PdmwWL
z>zS*HVL82{YbagWvS~?{{~GLgfljTtGj-==mHcA!PkyC=KlUb&^?=9E^8%ZXl2`6K
zMk&h}59dq0v4eELdVWlbsb$wXsqJg1=&ec_JBf#Mz;&?A&x*`$XwUkwF~kS+RUS_g
zgml1qwr>j3gx%R!E9dJp<>aAuWrzrOp0WYQa~H2)_}Rq+3Xkp8H{<b(U!@@H0q;BC
z&-5pG?N9&QtKsbZhM)b=Dr7z2dmLPUcFw<c%;oPg9qeP7_1xD3>44)tvA@%AWr=*T
ztGHb)DbI#w0@7gy@_C?sFRi_;%?kTFg&Q#+r3Kct8y;qNi65^?=dkQ>haE34=Qr<^
zCfk?ZP&OW|an$R`aAZRE1v;epANoT#IA%MdUY#zK|Gw%9>458dV~>jk4poWNsP>5X
zzve7=g>}Gs)?Ribm`f>D-g+EnQSnJoQxUQr@Vy%)=_BnO4m$6Qw?6#)k?S_A2kC(I
zEQb=w9&O!6OLwW3Oq>0<$PMX$=jq6ow;!0wClsvYZLg}S7cKYPhdWO}r#aN+47+AG
z?Kh7RQ`VO1%6LSlyu|g!=BpDSt?eC_N>>`ZOduWb_xu-w%R)uv!lSjfZ<faN_7kKa
z9q{*jGR0!YgO>hL<@LAL{?WMGI7kP)u68Qd+UfDU9-An;F-*k}Tf6E9moqPLzF${8
zZTP@!m~KMU%`c?xMr|l$J>Ymnszp6MxfE31&aLdy5boEch3Le8ng~DZQ+$iivGnHF
zrlbZPqC*)--B(|?ASrWwTy@Agxw;NAAF!_*o9T&+mL9Ct`#TM*VqcboB07h?KMd|M
z&w5&`u{Ve9{JU>jh)&$)62^m-mx~0XFCBfabL}`CqC>lSmW}#@$R4>1>HB!Ab9L(O
z!5u$fK9d0-h<~CQJJKS4O;Z<BONSyl$@3zQHNB1qV$XB6ARX{J20j;NL3EZvF6y$=
zBwfbl6MB5%@&W4s*Z+_q9WZC`J5*MP4!90P5YfpKcqQrBROZ!dF80xAdEn-d4_ZFi
zUDOv^f7+fbcNnIRPjdIjgml1sI0|qx$^|^?lGD-WA3q%pu|ssg@4(;@9dKTK;x1f1
zU|(M{Nsg@5M;~GH*qMk9_?*ZN(Ft)nLRGw~6ou7;M|8#p7!JhfrfFl&gg06~mx)}&
zPC_pkb21Sf@Hw>|qGMUx{f*tgDFAyegGY2Sdy^&K7uj!M&V(0QK92(IE=U}j{D{rd
zW+FO+MqGZkLpoQndh8G#@HrzM(aE_=7vg>CR}WUt#2vJJx@y-a#g~30YzGOC3gtLQ
zXCgYLr&@WU6Gt?$`=A}7liTJb<g_jL1UsJbhz|IiapE>wK2vY1ItcQ<`q=jdGZ7u7
zm0$mgzm;cVjvb;ib-8TmOI}huHtu*t=j4u-?}hqo9#}mSo@n{3+19Mo2ndj{dNL6m
zaQ%iIqEjk*B|As_q-V6^9GS6}g%^+LsLWoDle_&Ow~73Rj#_N#_=E>qK7l7sReIT`
zh<o3PwSQVerq4uliXSA52UE<BW7jb|L`P7a<F0w*&s5C8BRb%I#}n>o`J7x+!jF@K
zD=X&3rrN}9-ep2M;C=xch5w8?N|v5G-q4yK5=v*zhjhT-8{l&yS40QgKTZnL0e?S-
zb=0<3NitdR3dj5_=IQTUb%V<p%%^L=y<hA%*8^Ogp*KkJp_@3!dcgP1-`L3A+_^se
zZL|E}nek5@)Dw{Pfb&T7A+oJ;Os{j#s!!BTMEvVVb*k;=ijF1ZSH=y|u`?wf`3>uU
z^N=CiSM0~@r#`56(Y#>%Y;&j%vafx>e8SP=G~8x8yPN0!SxTAwI~$`1nKL*~Qg7^A
zsLj2jIlJ&m8+FZ}-GYz~IPT6*e?Cj|ENyk5Imw&XP#%ScbijJ}B!>bd-h3&+u7|M4
zp*WCFdgCL7Vf(S$PWu(sc1!X-TZOD=FW}4sd4?V12yQBkI$ta!EaysqypC}Ij?q8$
z9P5VkDeU@8hIGLBvB9n2c?HRx`F6f+GW(|6qP!p-aQ^vO=DNCAu54s@cVT~=V2TLr
z{Q?}Xe-wYUBOg_~pW>)`nrXGUVCw;|KjHJjClcfN)@WbmZuGcI>A>a;p6^7Q%gmQ8
z!7>|v8IHTxsk2}meqg-niIKNX6iSPBX|DP<EqqoVg3Or-aK27xM1MTepY&Xqxo~gP
zMllZZcLLbgSs4p?SNe+udrW&<&*{A8hIPR6RJ~KYGSqj3@;uq6cvMc1nGUiZ@cUX@
zpB8GC=d%~v4J}nlcBdIhK|0{^Gos|^$64F#qE%<P<+{1a3)>fXzgT_NdcrTmC#c(O
zQJ;XTcr^hzUMGO@DvfiamF^oI(ms8r$MIyEKMC=7uOabgl0w?iy#K!2gXnNZE53}B
zxtsWFz+-G`{`*}PMCVY$^5F^|B{4BI->aIjDj6-1;|2b1Q7oLQHnj}xw^z$ns&Km(
zLxOa`^SwBqe`&N)YEijq#ClO?T+#&60qX(xLEuJoz<m&UAdergFK{0O*y}vl7q}0C
z6=Xf21I~*IB0AuF<`Crl6s)JGF1n`v{TEj3?`|@p^Y|viNv%+!4$QGabijE4*xx^3
zUvnjw%c@zf-^1R|9fJH_2RdK3GUaHePSs-$8PSQ;cObp6mvZKiP%QaS^_j~G(dm9&
zu(qpSBpGuA5uN46BWmXQubd1fSY~*>B%dC-1^4#_m`~$%zsvEJjZN6NlMx;8y<;mx
zN8{@Hj8n^uC^j!4i0FXp4~JaQ@&TV;kP#h?tzb7>j+ePu&Q^#{#IQv}<Ncg5%n?L%
zc7|NbD-?V2-}^E{E@=7u&v)7p9q_$BD@4aWtl4joBxLtrK8Q|s%7|SfOJf)IKI4!x
zT0U93D{oNk8Zr6r`h)0z@26NHI^c66K|}}q-usXfT0U=Iga&9BdNwpw?ON#%)%Zq6
zbi6%pZVen9QZskS)ZkOh&9p*vs$Ji`-z!eIdgnUlNt^U8RY62&#A#5OBu<~(QvZ4s
z|46%H=q6e|;B#s+q65AcV1?*dc1OSe9GoJhR{1I1GW4^rAfyBSt~*orWbxJ-U7!5w
zzCTRmf*BKzaQT3L?||#o%McxTqRO<#T&S->$(7bP?=6{7NC&*1PCNR$MN_7J;Pk4j
z0_Rl4wGbWi&CU1--rwIxPaZns8&xDh2kC(G8;ho7cN^Kqw;v2Jy)PYMRv2=C%Nbm!
zw{&n1r6MH0fB4gUu<DjV&OD?8j@L>2q}=S)g!({{|NHdn?C?AV(E-=1lOP@NICSCs
z{E{<?u?Jg^Z35|l<1UI*9%y{5m4P|jh>p3-{sxay>Hofy++z<nUSK`<pX#hUajj8k
zX&NwNq^qioM|7kM{pObD9tJmDS@`X4+j-ao(J6_yF8&=YLVj$`u+NI`VmLRX1CAHC
z{&~m_EuR~>(*02v)tQZa`M1_$nbgRT4p>j~hoHqkXKD4FYfsKZb?w%&gLJ_0+Bcx^
z&#3-H{+MEX<z0ar!FWgqT(AD|RajBI!CiXYgqI_o0T-sZAsw)uxouZ2`*fe2hwT{&
zbfNwidv2iR>{rYF``%)_>9Y)Wb;W-rCGn6BIM2^EE*krJ*7UfKBB$@kGhEtUkPg__
z(aq`dy$%k{zlX(fBZeXYiinQ9XOZ(_VfA35^a<hyeI3*4b+~-M<ENmvsN3o4{Hf_p
z(m&f1WG)J%1NL=VRF>W7y<L1v!-4Vl?8UE$h)!XmEw9He3C=yg3Z;Jwrrjn$I$&QW
zyHsY3_@l~?3-6KGj%gC3gLJ^Y@II}rQOpJwdRNSIPbLRGtGfo5Gw56yPs+J6rklpR
z=2H|r;b<0$=p=T2>MeA}Ux=sn_~57G5~Bs_fa_rEG?(~|t*mqo9H_X%A$vWN0O^2z
zwaIDRn5zA`>wvP}JAL1*Bpjpz-j@^9&%NJ2;_7p=az1?zsZ+AW7A<EpH_x1G&W&33
zB|C-9S`RG}qBHV<)uw~lIp+4YCu4$!efRYc9iywS8sda_ywhaf(Tj{7HDf_^OsZxV
zcIWB%5|i!fJfnGeTWrws`Ca{8E`ry`>8<b!QM$)2*(5|qs6FGCl6T*$;``y`$xfLO
zJxB*UPaS73yIQzDSf@SrRY0%)z9~1NBe>sheSUnu8IP5kg`+jA?~pZGKDin}xBfmg
zm^x-#TWB-b?N3H@_GktrJ9B)`6-){ares*(v4V8K^CDY|I$Gu*RYVOJ|MJ`k`j1kG
zj;5LD$1AP-sGBV`{593>zu_Pq@O+=;<2u^7`>JC3jm#(cNnbQ5SJ83?=Shf&4mcl9
zKy<+Q7964ju79Rj!Q}&<7vO%rp^y$ZUjMUi7o-E$1MVZng6M$j(0VN4@&Wq-=U3wq
z9dLft1kou7ls6^$U(>?Y#c?A##Fht3xlPqunA2l{mJc{z7mw(G-)k~Kbo@CF@7Zxx
zZw8ys<VJMB_Z@n!z~uuT&(jyj>2SAF4q@+2kP)3i8^wKLLLOHz#}3hX;d$U3Wn1dM
zeR!oH9q_yW_YIskhsy_a$kRug-b&D`W6weI5gl-yrz@gkCPQ<|M8vfXt49jadE1s^
z_}%<Q8a7_@W^nm{#}7EKUIyuaIdl1_nCtoMW5??8f^@)ojOssU=5DY&!tx<NI$%8>
zx#!QXaH?`(4i3>N<0o$0zTh{p$dwf3Ym2v~T!zaTTyLY!Zn!ezR>+1qLx|3NG*6hp
zV*cjHqzJzBz1cq0zK#h=b6=flbokoz=bS?q4J~S4|HjEmr|1U!2{$S7-xpYMuzi8!
zZfPH5VB;R6pcp~gbT8zg&xFhe9QS^WQSyN+QA!pv%hOgiA_aDk4!8~t*Cuktd~WEr
zxWJ(cS?TU|@sN%Xux^KI5x=R+Iy3vek+q@jj<mE1<Z%f8em>*>wPRti8h7sEc#idy
zK?xqx0guC>`8q;a=Ekqg?N&w(w&YV<kPf)c>UjJoCjJ}YG}v+I3h99FpQ^tTPH}i~
z%jsERR3_<uZY~b;dI+wwidd|$mAuX=7nDQbD7TuqF#%Z*IL|-w@qp&+;2&EX72W*v
zzE9RDkPi5r0l&Ki9;d{WIOw0p?akn>lwpDF3p_90ir70P-7L?hX}B2Eo?i5`2eKY;
zz39l;X_I`W@4hmpFPGl0cAgi6tOq>5IwSdORUa^a4saPhZkm^Hb_lW_aJ<Y`)vWsi
zhcu2KajCEtK69)N(gEvnx1RRCEpDH(-?Pa2e2mchP(+7k^-5&gQgt@|ZC=mi6VuGF
z=LJ{~NvO_@Gbok5F0cK&(DyZGI>dTDZgC$M$rKLQs<D41Rm)6Q2YLMg>tSF%>Zfo_
znD5C`n^e&*tDaCu2RsgUJukn*oDp^N$erqd^R%Q+JxB+vr*(Ozz4`u`@Jjh>Q+)<4
zRxFSXSWkMF4|NtxzQxYJh4)S=9DC7Y3U^-y>ltKT|8s-=C`nr4b5=-P)<`^}L#rlw
zC~}{DDB}h5f$5VBh9-~>*w?JgwEkC(W>wkw$>$lWj*)_p4%ip7<F5ppe0gDg(S5^g
z0yn&dOwjWA)|3{f6H8;bh~r87v**w~GNR*LU1df!^JO8rW~|KiaKJMwL}%M=cu*wl
zb)0ZzvTTAx7ex@!G5<bhdn*yg@{+!7h{=$1-;gm{K0|k+xnHo<r}PruM|!56cOyeO
z;JCB%E3fUXFU`UnJ46RucPa(xfX5HG?sWbVTs~l5;JVW?NC&J3TzBe)=;*8-F3x#x
zUXSIh2<d=*P1id-YhzBCU5w!PBeEm*GY--L`_gi0_|Cb_m70NXoY-6K#!4}Q%Nca;
z(C59_L4Hn^pH5d^&O%#4M0D`+%`#F&tvP2d%690q_$m<~9WWoB$;edSr<yB6ihb`i
zEVXaaK{{Yx+!;EN{6AUFV}Hlh8KUI_?q3j!=z#OIT8K{Y-zQt`<8Sp7+FE0%{~Vm6
zgLJ^0GiB<}h3^xk!km_iaQT1^`SQa7gWLMem=llaoJ+`ZU%VvGf;m=*j**AHdWpY4
z8Rp;-osYjI-kffn`ieR8259;C?MuHBZWB?0Ic12Bp|+2+(A95Rm_tN#Tn2H@FVD9V
zF-Hs0VNGqPZxZ^nfjKOQ&hDhh*P$CyVVKjSkCyY?8O3{CuO4+`4jIweV=^O3b&Y8W
zbL<cuf5o`Kw%{yU%#lKLSaQ9O?OjPI#++3>w0w#=MQ0aZ9)E^86htTAQ|!Q>m9Gae
zClt}~t1KWrUUQ4Z96dybgH!feL)`3V%;83KhVvF1esmofz?`8AXgM3sHyYOoJq^X2
zOhjj{<ioSqALx`Z#}(1JpWOX{ZEAJ`a}*IBA>x}N8mm|T)q_KH(hOA>PCZZAG4lIZ
z)^fx^U)_1QoWc9MXk2!kb>OYHm=lWV82vKZwGTI~hB;b@&Xk)(8=eby2y^HV9g?e8
zeP#Gw4cZGo{c}k733a+?`FyXCP*53;IEH<%AQaINU>;6Z)%X>Tea}h@(gA-bfa{-G
zARTbr&pip8A<sRO$!~byZx}P4(4qsE4_MFtJU@kWz<R*%9+)6HssA)~6)|hPak@Z%
zpr-4|BW_3se2<>nFtwd3GLiK9amAU?*`Xyeq$35)Kj+z9w(9uRbbQDD0=uSd-b+1@
z;|0E-8<K0b{-lF8S=H!K;#^+`%@CvmuGhNe6t=^&1z(sj8?f<oz+4Wt9&jDCc*N;o
zT0hTJT?<k-r>#r>1Y|wnddRCEzKrv-wGs_2I8Ro!E8t<zQ_xBD4BUQ8S<eeh6FXe~
zKA)HgSr0h>obvqT%vbZ0>x&DNlIVhMCnBT+9?yOTQyFQWgP677mGC<GktYd|4mi)h
zyS)F!Zo%%N#}As!xaajH>>wSmug7j*dM`M3?K<EXFCqS_offtp&`G~DM#>VoxsPgn
zk2xVVu7Mk}9&ml{VwlQ&qe7SOWxc#Zl47NPbdU~sUc6nX{Nvd0(kj8XbmX+Z&jr})
zAvhndSopo`taw6xN3YPR=jcoMRmk%lbi&P~4{S6^-V0cZI_FpRaCr#Q0gs=blcihw
zhLMv4oByPZO?FSiUVlIb{Jy#sVm;oGFI%|1(+0I;GfdBjUWgDxbdE@?`xu^**1_I?
zA36tj-vRpy&&a;^HfiJEqt6YYJ3IslWJKpv$!V6CA-*?WTy0Xmux;_k3eo}ZgMVlR
zdfyw=y?U<6_WhVazzQDGDbaV_eLc+8dO613di;;Q!n`(GKCy9Mu2XEkGWZ`(a1^oO
zeV>o$q`nAy@aoH<9h%LFFaD0v{BlKfME|Z1s4|JymL+!FZIV)!l|pn(+noL^CFps+
z>D?5k@k<Y#KZ}+R_vDo?xSl+naK&&*HI?18`G^kq{Y+OxXOG4V-C5y>DOUR5Bi(H&
z%2J39I6pS8g_aMvo-H5I0lyF6is<}s(eoWY{AVqs+~(TVIfLg?h>m`wAvKTo-!(j0
zU*nH0pTfK*Tt49WK2QIsgJgHB>_U}bp3QlpaT%loUdR4tULDbCV9k#Bz#@>2?K7(g
z>41GjRZG_1;j(8XJ~Ej8#=i3|4$=Yp;_!>woZQ`a7MnMwoPo<3bgEp89St9kdtnX{
z(NT*h)|uBnAHp00qB9pN%z2WiO2Hf)qO-+QKOtS&xC?u~o1%f15BUBv5zzs^-%CJr
zd@uQO<_sTTPE%3;+D$I3$00i4zGjruX!!{6S<mVYy{657TRLH^$HGrUbintQ35br-
zo_DWWZZPh_*5%?59S6CJwBwPz)0jg!g_e)Lu07qLz?&7!AtE|88HqH9O-=MLhk)p4
z26w({rP<WL92}w(8n$jj=f}*8ITUrYe2Vr9ez@nyeGYSohz__On}FzyIt+e`kKNsd
z)q_KH0<P8U=Qf}GjX9K)X!)p%KaP<(=+cNeL_`PtJ}m*!`7CoM`0B&67qNP9h)(FI
z=M|@W^<^=KLO{!Be)YYH20=FnbBKse8sDBDHd%T-m_tBx!0!p;5S><TR{Xgk{0FQa
ziW*uzK9&n+awj(2Fo%ff$m|n*w>>t-h&cpA=j^5p>t6lo|K6LxAv)lD9F!Ai`P4}K
z346;hIfwN{M0DcYooQa&$c@7s0;2P`J#YA*T+<oM!67<hfx8F1=}c2GhoXv>kCIBs
zy=S%S)tEy>bjCjYWtw|SpN}~NMCYi+oq-DBbS2EeAv!G%KdxNK`OA$t6cx05ta;ev
zL=40)V-69~aT0f}_f7Quf;j|4=c!21$I6B;|6Rv$hz{d+?EBTnB3xKK6lJu0<O|-u
zl;$5>!yF=_Lyl&9ZEyPT8s-oXolCyDVR6BK3NZ(V=)5egdp~h7=KtNll+f}KemQkt
zkf`_H?=d2xQ`IlywY%V+BGwlH(FyImXZq99E)R2Xhz?h;fDF}e+AGYV97oH?BPB&9
zYvWI_|Jc=OZX4wZBBIm5b&SqC=(aQF5D=ZNm=^9ts;$$QgF|$_+`Mz~&%R+V%%Lcv
z<r5*?K!5b|q&(&j5gknduH^8jCMV1xAUY8}VVSLW-9|A7hv-yp7F@&KFgS`i6a}<=
zioel5>Ed`RgE>S*hf=XJO>_RC2<8wF9ky4pc#G~PJm%mKon7sA`uv62L6}34N6RPe
zBB>?K&AAYBh=`75(8Hv4X_WxXAs{-Z6??vZetEbZb8v`Gb#7UBU}mf>=1}C&@~P8f
zEwa41%!fHdMCU*x_t<m@(>u%|AUayRW;lJvAN+Sc#34FQjB~DU-+TQTtA}z7EuVvw
zkxtpU>_p5VB084u4Da-J(y3t%0nt&peR?nD_z7{$!67=wZXGE1_+%YWUyOfQrZUe<
zkwwdgcbgQ_Jj(wBbBKsef7`18Q5OCV%po8;F2pd`RsE;CFb9X|EbbB!ebLQojyV(=
zw0xq)r1+z@l^QUIi0BMx{QX1n<~o5n1VrcNc?ORsM~=v04i3>--0RXf-Kvy;ITUHM
zd?+d={A{fHKfbuJ*IP9O?I9vM`-=~)A8RTw#2f;m6XoO6K58J@i8(k#M~P=UbtAz0
zB<4`0(DIoVa^>u@U3J17BBCQ5AARMQ(7gf7As{-XEWdZvFUMMA4i3=?y*^ldDV6U%
z=1`8J<&(V;c8}3+M<eDC5gm>M+LHKa+H06YKy=LX(gKs#ylgQChv?)ie#ugn5!A#S
z$`Q1D?kcRg->a~U#T+7{^K=<sB`&ulhB*X8r*)TFxz2c$G3MY99Sg3JgQoP;bC^Rp
zjFyjdI@R{7<)I7X?dEd4JfwOeqH}QZY~Y1ICcKzKKy>WzC!AxRF|x}!ee!AA_{xt%
zbi`tLr^9z?{SF;r+?uT8Sfd<5%O{_aKemBqxPvC8RI#(xu7QZ?WSjbyb}w1(dJ|UH
zz{DkfjezK^i;7Z`6}xCt_0`Yj)9lZ|Av&-7c3or`8{QUBj}lz-N<B`IM9U}2#BbqB
z(D<o!rd$;x<|j%-MCXh^Z-7X->7h?oj(^KoRQpIkbUxU(W|SxmUCyHmQSxYAo5Vpn
z;Cjf}e>^{(i@ZiwBe}!}KXeQZNucGE#@g)@sd`UX&bhT<WY%w)jOe_izW>sZ+%)y=
z6SdW8O9@LWNC#Y>@T5X<<+yVoflq~_Ha#h$0}ttd>ljBH!>tcpdOy69WpXpnHrEpe
z>459~ILj`{KB$^>Qtht%z)YI(nh=M}85}QrF&CMP`)PZ9h~B+w3L{tQARTbMgu;V|
zK8@>xukZSHyTzxg1%@IzHu`iLr#60d#9Z`ycW<}K4=qGzEn4;%m!Ink58q^FRqg0D
zIz-2FP)k0OLyY?5j|L59%{L5nc(|Owe2yKx#u9v*q=bFnI26&zxOD#-YqNVQ=4c^0
zwo6i5zpLe9FozD&sX3BS9sab&8guHz(DDJl_a2Jq6kl4iU%D0hydXj?;bN16gchPB
zZ-3~=D{kYfLTdwTw}0@h(?L4mb;CW7@3z=BZ{%_QNSXkrz2Pkf(ee=zNx8_|@@Z9A
z#+~k>r}jS*qVrAX)1>*e|698}C!fX7o-nTm>41F&>Rt^sUZ3FbexNFTCP8<C8`1&K
zi(8GeRF7FanuV;qy?d1<%6df6^4U$l&*Ifdot_IeHp<Z%^@rmTo#SWu|N5vDrJs0d
zrzd&ivZo281Lni%$-#2m|K1((4VN*x(&M^<kPetnMDdmWfM1o$3nm9;J~aPo9}+>!
zCrF#vb}Mq7KI-|m?SC)YnaGIF#&mwwSpH;Q5gX@?6_-PPR*(*ukE7K5{5wvMK!%&N
zQmthtF5n>@FdwtEX=bOJm)3~xSxLLa8iXbepyjhj!{B)~ZRdUdsb88$M{mn#B0AMO
zw(P%L2%wq~{b|F$-_+6$(gE|)rF+S~w7|3P;B&o0%o_3eQjiXq&qdEIcP4$B0L>U@
z4^H8F#(811d=A^nS?)REtC{pfWJ~>0<9a@%1NQafOyt+UujUstJ*xNkA3EXa1?hl&
zRZ7e|1$Rjf4rZkKGZa6TRz!3j`|p(_s0#mVxvlD1tQ?D56++AB!MWEQaf$hszeJ9g
zwm!P}xD3((^Qjtqc!Dx*qnmiU;(Q4k4G$600rS~!lEb|yxMsVV^`dUSFy$Tr(Xslx
z-=hCLt*~Ml``FHmbr~F@6FynlI~Wq@!cR5W-WSKUk0J<{Gnmiyp~wCeEQ>>4d!tFm
z<4u2sLONhRj2-pnujF+s+&_H{YjCB(Yau#(?%#W#5SU+_d1rXKtfyFv4$(32sYyNf
zy=aMQ`)77$Ug_;R0l0j?z8;+Gb%>Bib1*siJZF69A4e#p1LpiwWCVBQ2=C;Ff(zoC
zDXr3akPcW6xDNsgqT|g(dtXU5MP)_j`y;8lne8q6(eeosqmn0Eef?tpfWoe&m7`38
zbijOSXAZ{yZd$6noW8S_E%=d$38Vw&b0E54Ls2BWlAYQzey;4Z7B`|Z%e#I^$YoB2
z*JIt4rnzmphaWB<urHn+$IXs9klyx>xN3h<YtA7<I$&QFvhIP+26Z#M&U3WZebv9M
zARVxtBFgq^){|d!Y&JgBm10sIct{7Vhd7nXbzdi8-Re%LTc&CKjtM@vd_d=|TH%Z;
zKA;9);F?o2eEM1@qyv7}F=_uP4e=c@x|dC>kBS}%jPrtYz<MM)W4Z5d1gly*zB$&q
zgI+)p(W&S=f8x&ab6L&u5AD+lgSxA{X!$fe{A>|?W+QReubpv@{yAP{kPbNR=|;q;
zuxXK&$ls$i(eA>9L`VnBC#~+pImvWOT+rkYRV~$9Hv*#59GY>WZt;Bwc_TxppJh)s
z4$=Yp65LxKs1tuG#MLw=$mDWNe%(H_oaaOEIp?}5Cj;{+HlNGCkV6q2H(JiGG;G&Q
zE;uY6^J?y@(n55cr=ufCc9fRx?!XxK*^fbVkPeuS&-0Q?3VAPx%(s`L_pCl*Y~ex6
zXS?gb%A@h1>q`1}I9@b<9U>t*-{~h^#DCDPm3z|F6xv7Q^$?v1<BS6z5^Ta{aK3S`
zCgem}5S?>Bxwr;YOSpu}lJ5UtRN!ynM$1RwX6li~E|bELkp{ViHx3RYNCzCRCTV_y
z#6%HMHF@R9)TB2)CXfzzo@V~v7uDz}Cl#B!UtcG=ZOC#XI_(=H^((x~CKt4xOZL&t
z2KI2l<pcKR@WomwwOz_9;A~U^OO-`F8PWm!IxLlGVat4+x+=6UJ}o$p#R}2+E%hjX
zcR4DI<M+zR!0b$8K}ZMe%f;h)qLsVBYr|DjedCGEx(QCWe89e}t?!S79RKHVKWF?7
zZlBF?CZc0Ms<}~7i*MgM|I5DCD8bbZ(HR&_RB$*)OH*NbfVQ<`q8tzDfcb>4E`4>A
zVB1d9I^NPXX)ia=ftF89Y5D{D{mZ>a81nk)oZ8Fs5uL}@g%Y|hUdHFF4L0w#kW*bD
z9k8!bo<dowcaP`kDPgI{Km0qR2<d?1o--SALAQc?U*Olgg^R+|KCA3-`GEDvzTXbB
zp5~(ID!Rb1e6Tx=0_lMDY-+!+KVOg;mhi*WHgizvClS&4cT&+x_^4>ofCUS61S|hT
z0;B`>b?kk0gd~T`F$Xhkc@{TYTRKPw>}yETX5`!TU7EhD$p^31gxsuSgUcCovdl$S
zx#;)TSOgWT8D}}rhax)qM|NKqHdIlHepBOkn3{4|3(^7e2{L3?&UJfz#wqZwZLQO_
z4i-oU>`SeG<+EQ&Y^j7Xk6ouwvU1B_w0th=S$KGJ8#MZleyU$DKK_yf>41Gb-T$HH
zq-sX(iD{eoQ!;9)CXf!;*Qw!?JCjq+3V-&EOJ8_d_nRBh@l@;2BJ>{CyZ!Fg+o&|H
z_8wNWe4duC)>bCCYE%2pI5{0oWsQe)z<lCmUp<ljd;PGqPmp{4rs$j%qyy$Nf93lX
zIz7d2Z(W{Q-{B=+6-0FQ#8|t~M|n}Fe%X77et>smhy^X5h4#F!_0*e3O5;Lya9tN3
zAVWG}KK-eb+#)U8-2HDlZkY2~RN6s0U_M<VG;IOG;=GY7*Dn_Ik51qb9dJLy31+l>
z@@pEsca$2m22(tChSRAZ&O~(LoG-J9zU#=!(G_=idzn?s4$=X0J{lI?KKk2PedEf)
zd7qB_Dk(?@%-P4~t;fzz<9B68XtFCD!(!+6pyks&_4Tc<)wg^a&sEM%@7nwMh)$To
zqdH3~+ZT~B$~MP%D_mV69WbAnktOl$Wc%4amIS(eeRPi$AssNEXS#2#^X}}Hd=T|l
zk~*itW|avo9|q-=9@fEMOC+gxr^y?s$IB3%WrO@HL<O6(lBp&!w1rOIUWm@~uB(Oq
z?pOM*i)55|g-u&3LONj1?0!s)?iZ}$lwYdc-uzG|h=X*%obQtJxBljI7{%QwFgkSm
zz*h<*TF#yQG%ZJBlGcY)!-9LGo7jnnjv?b>T849L-tpYqqbX(IN(hh+m=B+sq}x(}
zyIuE#{Gl5$G);7n4w#SMwVFsB#or}1!4e%L71pIX2DE(S?)tv7Npg_pnCm?>ysXL{
zis)2uY!7SZ-ZKaq<<OGAkBDd?I$@$&jsZKzgG+>3UQ3Hf-lIcwIuF|)lF^S?vq>^4
zc-8H2v5p=tA8@?1G)#KgD;}O9<(~Z)>1gOkf^@*~`Yr8VI^V}Q^GQR9R>CK3P!G|$
z^hW=erewpXIR4-wAssny7DPw*cJS^eMk6HkcEP**F2sbi?1sw+>}xV{<IjgE(bS5{
zcNfZc+C`EO9qqeh*=9~DpMCot<rp~p7}tYz!0|dwH%i>NZ_>NTW-uM~*eHz~(gFMW
zPW9CC=HVhmhvq9ZH@T{-dg##dahk=m_tzvZ{<d2@A$h&`d_1Dl&c7fRdA|B&$yQaE
z@@=<WCXf!8&vQ~->aqEl;f1!=j^~5vF@lf|n9uL=cZm(0E1#H6Pn8;eZ>b%kMau_I
zJ$p+1Im^p0yFAXM{!+n{5uGNH1c~U(kNLOH%UyhY;+C})q7zekp=bMS>13ECbF5U9
zO0^)Q1LmCH;PpDC;S&F*x{tW=aOsf=8nk>~9a<^0$$7>0e46Ly%#KrynTSs7*q3#U
zgmLF&?<79U-rmc0kPg__C)3}1YfV;OsVYS+%4cTINI^Q_@sr!pQOehrk}A~oX`CgH
zL3w@`T0XvgJMTH)D0ymA{#*O(r>xw3M8~<nR2{G8yuMwb^HXhPdchUa0rOcmkN7sq
zVy$(9;qtVs_9VL^qyy%|x;N>=ANvpGqq=uaU(KjqUfqe7&kVD<4*pHIK;pau-NI{|
zzA{AThspR)S$4~hF`QK2zs5-K^g?uk9shA>Oc%a<DK`9WVeoaBBBTT6JpA;j!JaGK
z&p1=X(s_(5=5UY>m~&WN$miH!J2^=)$<AUe<L4<m&~pC2t)EVNbN7dKlCrB}JaNrL
zL`Ph%Mboaq>7#1y<-RxX9C`?l4w%pD2ObxAI^JEJKUljXk)>{g4$=Yharf5hZMtt#
zVH`$IHjl3ntD{ECXD=nSU_5!?n~=eopkHJOkx)nn>`S9wZ^v?s8nIJ*p_D9DN6>?G
zz`ktHY!Hj2M`g)g;}rp4-><MBI`gW6L|?TnK`!MRBDGTC>Mc}o`G9>nh-y5$*<c-b
zFy;D!pvDWPct{8Ai>Y0|Tx{X@wbCw;#z!CeQcVz@{NX2E2Ny_jbz=eNT%~Tvb0a#f
z##Mza=f_Alw$9((@jBVL2ZxrAh`W)+OI59zhf+WLZh6PYkRcr~pQ2=ry1T`#YdhXv
zEAZG;ztalQ;aYOI{Zr?j;`n;t!_SNI3xbFaPoaoF)Wm)L_G^ZwvTRlxL)#nM|NlSW
zv*-WwU$CzStRz)O1pz@O))3xfy2@N+NC!L)%WOB9|1^9)b+B3qfAaGRn;oPB))V_K
zG)u3I?#cAS@;YZ)MiV@ulk+fD>d>;|T)@4y<!2SgFHdZt<#V>q;e{)2?fgv31OEG7
zvtyZv&Z`0T7jwP2S3IP;t)<%>3hWRa8fU-zyC*yS?TMRRYc5j?ctj`eNow}^h)<b%
zvFe>{F4dHYe{lJL<9>*xNjfUCS#Hqf{<$Y&H%s#&9dO*ekACC2c+MLiQ=%1ZWT}(q
zis)SYE5b&b$GKUzG4bZk>jhRRNC)ie&Boh-k|c&G$3ks_jYXE$>Ly%1U|;@QTobE(
zITktQSN+2Fzq?e1=$usDU~?mmwF&D)@=!7ASa~5j_PYafr>gXhCk5G89GWAxD?&P8
zK2CJ`!s}FILH;KUhCM#s3^+&!%twCqWAD4W+V2L-Nmi#-iw;pX;Bp4*2_1eh>_wAw
zYG<SNq4nm(o1u^nSWj?&ddIEbMVh{rG;uyZ`vkNQowGRi%E=I;pB-2C$X4%VCetB0
z=gSWpEpdEP_;@Vlw`0born+^sd=x$?(QDmlN=f;u+fZO5BS(UCz<e67FQ0YAefe4O
zSy8x1;z5!gqGQIeVb3-fap+6`wvKQx=Q$Qg2ORg$AGQ^B-gMubYZ+mF=)|ervj&$B
z*q3UByB1|kvT*2Gfbv7P!<XU_9o(ka*MYtVZKuL-%;=abTsMJqz`jy?4<Au_r7N_y
zUsJ%3-857X(gFLjrA-&=O&RzuEqiY4@!hWUp;fee{O;Vh4BivUclE)>UiuTCX~~cd
z*w=Y&aobi#@eaZ_`dGmu6B~Ar4%pYAE?$r$qG&XhXUC_4#*Y$sL}!ch(yhTcuAR&@
zPoI!9e>P04z~uw>wR0y)>X`L+5C52;V`q0r(dR=tU|$DW2MvgiGEzQOI`$1+xZ>f8
z=v0#`blcT7K17BG&s_9oIw=L|fPJaTS*V_st}Ge;uF34H7j$KH87`my>Fe@KT|+{J
zir&>GF(n>9wlYL#!_OeX>iWCOY#oPRaE%M*ctJW~U)Rm;T@vcP?Xx)E;N3Gg^^^eV
zfPHBt^6=cT((P~b8*tjXA(MeabS5GgJEptWvV(<<@4an3$wgU$%NguTt<QF<Rod70
zmi%DFFVfWRP)G;tD^e}$@yVs2@^)@zmxge^CM`rKdP=9}Ceh5{O`GwZc-sbFIz;Du
zgkAMF_FZ<5#f<kPnI+WJEu!Vaw^3D~{f3ow@Phjjx)G{T5~Ks>BQto~_tnk}@_u&L
zz9`O313g5C9P6RSrkQ=C<CC1ICxMEQ1=0b>UCxFyH~x#d_ji1e=X_aOM9*Kie89e(
zD!vQwuu_rxzD3@vQ$83NkLYlpig5@LTVC|>*;lvy!-CHQ(gFJleyhIx-s0a;+hYeP
zrpxXof{@Pt^d)gdQfGGxwWL^;|M##{r9*$v@^O(Vr+w2IenX^?9$%>3e36Xk)ZVm;
z@N#?XR&b=4_K7~bhZUkzlER*BeftbASvoY}{WwFDAfoeoin{epjoY}n<#XxNU+Wr&
z7U1#$$ICo-d$(E6o)4_dIy*i_=Bs2vI^cMnr{W&je!Z{HDJb{I)obNX>=2!X_`Oc~
z*;W=J+maQJ1JYyhkPg^ab)X)esj@<kD($7j2gZA!=I7z^0sGoW+u7{v_SQXpZIxb+
z=lx_pqGKU4Dt7XsqL7{Oldp_CU*ud79nNYaL&~?{jIg-plb5o>zDPkjU_M)qKfIH%
z+ZPx9!u{fc&Pk5dIkbHIKhJ+{)zN-YaWGKPOStA{8KNWIyIb{bSv%96+SmL=(!wM!
zNC)g|Mbi1sj(0vvR1TD5p`v_s1V{%Q_fOoNf5x4N#N33YdF7WOLpVgoYt&z8K$7*@
z%|18sp}=nulv%i(!M^C{Mj9^fOftcRh^Lsz&5=VP9k8$0zIrt;ZVgX=U0-mc?)b^7
zh3FhQ%#lcS$oyZ=S1$@T$@VZEqyzTl-(GcjYRg0@VPxwjan5;H%M4sTU|$R*w^@;5
z*_CmYoAtvk_tHs-P8O$pVi@J({n#^2(Uy`HfqIY**w^0IV<MllHMQfKE{CYEoHpZz
zbilrXGA>!f+wbZTi9VsPN;zTDGmVx{Rv!20gIQ4@ePU0pGY8+rct{8AOHQ9>_$i@V
z@zeEV`>)fbrCC8bU|*ZTkN@?EJhr#6Sv}4w+dnOc=%lg#ka=7;#mr_PeC~>I{^y}7
zw0sy{ztd;$p!-CZv~I1m7J7^f>45p@>hieZw>W?M9nLRLGyN-R2kC(M5VrjZqrvhu
zcUi~(9&EO0!6P~bH0xhJAAfe{7Po}$ImW-06O(B92pzcMU9ZF!vlDN9pQd@?LnfpH
z=JTMs#9v)ttW&xCba$2Jj(k^02h7LxY}HD{p^RF+d$q*p>;x|<M91vO+|^g3D{PNe
zST_A%XX(uUhRX-+YulDOAZKCq^2Cy}hJDeOqh*i|*w-uCUHSpaLC=h}buShq)319W
zI*jt<<|7t3SJ$Atn(X<6PDMxu>}&kH@+<bO)})OM*}RXA#@}#|4%nAG12K@<zcyvA
zw($_%*va3N3Amg=$1E;?w3V@XuXbCoz%KebcZiS<*jM6)<{-}v&R|(Lb-v8ad;VIG
z4p`5ro^!+(3l`2{o~aQ6+|;3Th>ma<ZTJ_0tkiPgyPk7dm*(q!!Q}(?wUd5l%RQAM
z(uKP2GrnJ~7D<o}*q4UaB{y9X{cEq!cbwR40$BAB9hYePpXPJEMdU{djkL*`-7JXC
z>*%wK@{Ytz`=r0r{{2t9TYjSDqmtb`<Tbr&JR)FGxcB}5b3CL2=5t-e!FclRqF*gT
z`>J?I7tRFI0mo}a^k>VujN0dh)o;zeX!;ifAsw(D<6k~a<|8W-$)t$Jw5OU|L*sDy
zfR5YV+edxXytt$dKWg$^;PoX#I$&RW9eJF|E)sz!G<HP#S6X`5K{{YP+}uab75!cx
zySYE;d?wz-1P|$e^(6mbcO<t=^(zIOZQ8};wP$_|EuWQ{R>x17#+>yLO?D;h2h#Hq
zofPVu9Q>&~iDwf1uLksNd%Hq9U|(O)9ewh;(a7kbf=4~xiu6Yj(gAa(45aR>uUn9m
zxjwEsWSv~SI*OK$Bqwg(dCk=DTpNusjgM$X8KU#tx-Ii%Cl%-Y^nu7x#kcHUkPeuS
zFkb}sp;s^IQ_ozz9^ZQN7y;4&^XU~77UC<mXuB!gAGw#Qh!KbAY<BxM&r6rb=DiHk
zpjoi_Mj3(28SLw%#n9=Gas$6<L~_ik3uE_$LONhywKsmZ=#H5=R~FPrs|-Bs&_Z-R
z`N)*?{7G0LBtFCcnTl1RgLJ^Y)<eoXcpvyZQc(BNa35iyY8i&h2ka{-)_w7=nzjAU
z7mu00^E}NYAvzjKFE{9pXExzJS$E$(uXjlg(J|$#_Afr@bbza7Q(GdmZIlJl0rL@O
zkvs5;TDfsDmrum*8UISp5L!Mn-B-Jl?yI%#dXvv~g>m#sJfbs|Gc#GON8ac5_GEtg
zg!_yMqyzR9DrU!Krpl|Z;@vv1dpmwo5Yhq1-TRBFRYh;#9hPjWMcd|1r=dZ#eEe;T
zvs8|fS_CgESFRPb>ysfJu&)g<<GZz5KYTd5btP?=XD-`8I$&Qe<N7q6isec#)4cl4
zx!RB85gp?mZI#Vei9aue(v4}=8Wm3rpyku!sr3G0#bI(e+qL^WKMx(vgml1sE_5y@
z^ytO<c}DI%dWn61t1F}f=F>kJwj#~Yt<1FIhnq<e&yYfNI2XL{TiBgCz3(tXHe1>r
z#`zy``G9>5?)@Nps=nFzcvkl`e-`al8KeXDWqw_>CF%4^XX%GqoD4R#SG^D&*Mf=d
z3ZB5blLwk|ILchR6d@h3uiwm~Ep2&P0{+Kxg}kl4UdBN>U|*ddf^8z~gsAW`H@}Iy
zY{*jj;c^BY`u!UdDg_}=!s&k;&r;|dB_cYEk*onLV<Sv{(^sR$k7ctF5FLEirqAZD
zvDnqy+lfu&um~KYlO`(G%$6*ccd~e|sP#rrE#*5}KAr*#KML9Uh2{<&5m5H6q7V_C
zk2wmF9@{A-N9qYBy@R+a0;03?;^)6z)|?_eXMHqmZ+4u;Av(>KyOb*pHw0Mg4zMg6
zZe67Gq2+VG{NX1V_WbyjHfqaBm6ik|qLXou@0)7uS4S$Ra4`{{TgwDQ=e%%*pOe<n
zot%0`3)VNEPT>$8`><xeMUs%+fBU5OqUA##3fk3Iy1wt&WNTj2gTQ_wqLa0|@&?te
z5fe#MPTJvrxBn6lo$QnmyGEAAuCe!AQoGr|Ucw<dcNKdr#De0KvHj>NJ!tu?+19Mo
z2ndichluFp2A$Jn>-hBo>x+QsJdBndHDFR<!s@{xI^h2Aly0<q!2REeh)!4S`lR^M
zkA&?Y;ZdO+=V$_=lQ$a{QY1X|c={XfoAPHeOE^deybo?iN-pp0vWv%@x-PhUK<9u&
z+jyhVJuS>3Av$_gk&NFJDjq*2&3fk^%fDv=>45tw@VLb8xk~6~#vDaNM<nFa>QFDY
zE9P(`I#P5(mb^~t=P_rs6E0`4um0)f10r_$KQN~U(fQ-9bUvU^OdfN}5FMEZyPv)=
zc=i`_;t?HH2HrPixIasn<Avzhh_>aVK51CN91}!mS6kMb_R=2(n4^g3Fp}<fKb36g
z!yIlzC;Po<=RK!jIm}t@Ks$cQRrV6BSVj^trw7q#GMPMn`Ig8S=9D2i=559b#506m
z%!x;I%9Gg+_6_Zp#2ha~XD6AKQX<ckg*hgOjw#nYZo}e}I+&w~==@uG9xSrb{19`v
z5gpqa=|-M&C(|%zwH@vFX_@(=U0lEP|BfF-=fIJORHER~eONtZh>kt^X#e%cga4gh
z@raJhzQo+1c!U4$J6?!Ri{pG9gHhx^tS=Kp=R3zKo<+f5HJGD_=<rZ8jkz&f=3ovt
zqEiuREa0T38-zKlZD_~O<Uze7P52R2%;`aNUVBLD25Q;<S5FzDLr@91ZD4a)4XY;}
z(Gl}#{?{v%F^M@|h|YzyS`VR6(rwH!L3DU?@6T-g3K_;6MMURo<nt5<wQnJq!;R=r
zO_p<H`QN9*oYhve;|Euh?NAr`y90B25S=s)NzsIxou!ylhUn~PIw@@Zk(C>B;t`#2
zL;bp9=am1hhhB(|P@rNod-;(VtR53YCn+QO;b7`>3(QeObc%5iNmUI;?qUu%qGL9`
zZ^fP9c?@$_ThNZ5r0$f$QZARDnA3ykjNGIe_E5Cp#GL<+y)%!CxohKpi_(Hh$&{@U
zjnbxKQYoPlQbMChWlL$1Xoxl<gi<txN?9r*RK^~WBvhgik%W|}Y-8>B`@NpIx?ivJ
zyyn-}#eF~b{XEk@*PL^%^Zs7vbC&P<E;DhE93S0x+0WuNw*ZHY<h=VXy~82v%t_#|
zkQ`dc(w3ur4PAl5L~<57I>qR19~KE529mRWz|B|Z$4iGgozhg5J#=_7jUtD<zq;Fc
zEzQY%Ury@!fOGp?H-vHTP#ZraC+PXA`5T7L=~*_f{nd(v_jK7v4&A1w`&!$x8#nVN
zz2CBAmMas<De0^&`#Nj*ec;fLoE`=$Q5L;!rT~X~8>f%6<fJzPx!2#vd&#PL40PVg
zMslu{oX?N(ooeT|`t2@GTh&D-l9Q=nb=Imjto(Gf*vY%i4v9319P<A}7!RMaprE|@
z{P^dozNK3|>zZ!i^pTbH%RTSd7VW~GxOl^Wy%JeS&J|hdFY`W4soS0M;cd~@=Ui_j
z$E4%^L){}>?Sx&Q#b*>mh|rOo(Dic}!}2{oO-s&bxVL`#>!xyQ`j9#=SDyVkfn6AP
zB|3S$^X|Yh4n+<*PYcA$x72;Kd~4p*C~eT@f>|si=X=wN?0BiT%deh}5NVjHxt@XK
zv{s(t-gxRZYfp;hg4~@-{=A#i^dZ|dX`5D`(7yYkhx#bq`tTy}6bH%aS)wxScra(J
z!K@8q`Yq^f#-hj}`>RFg;d$B3tCadnWZI5mtet5`kwdnt<)L$xrBB@Q;>{<O^3F~h
zB!%S6T;MIywB9o)m7AV>@vD15X&E)0$#(5lh)b4FOju_7<H=X1diFjxMGo06MX|!w
z17n=5<vxd=+Sugl#zb=Z<lNrpHtNpUp+nDw^fOw#ordH@ZnfRGq1JTXqg^%;ZRWP0
zxi_fkL$>SLqEQjidxA!6yPSFVhtu2pY>FIG=jvGzhc=BcQDPQPEiMizRrIFFA>(m!
zO&)Mqw0-MN_SIg6w5W%4B*)W5`jOAp;}W5h+Mk=8wfojoiqq$GzKJ3;;riKS7uyc@
ziMywhh2#XMhCIJnGyXxaMRsM8!nKLsNY1qZIZ7tshczujnsu`iUu4mdoVMqwEBC%n
z75z5qu~q6?j$PArq(1e_e5>+j{aAj!x^$hrwMQ0~6Mm|fTEBiSD>mG{Hl&Z!GH)a&
zeM+78;+^a*k)}&481(*|=tz!>iSB@ofZNxA(^P`fN8HEp^YXzL_5&vi$+7!-|AeP*
z?9ubnEBrV3?;h%n<Val~KkMM~@CjFA2W%}eea53>IYlWB&rKX^<dWUiUFoS2+jNbZ
zKIC%{llJj8X(FRjV&_H9i^wp)R7#OUt{W2;b2hukit)C8I;OV6uk2I|lC$R6U6;@-
z!wK5`W@Md+S~bxQ$vG=3A~pW$r@MXR#+S}qrMOuN$vN$i(NVG5bZpo){r6KvMI=kF
zQq!5#hrM{|+b`N~my7kCOegPFUmb(wv<~py8{MRlDIGpc;eG_|iycJ{`Ty2Sa(Jov
z21@I~eP&zCF%Ky=pvWQH<v05~uk*+CIN-Du<Mgpy)Ul*j``ydN^dqh&jmM($D00Z>
zr>as)1&#Kv`@KlWl9jr%;w=lwS+FzL&p0gb0JO`BB8SvxPUllqnQK4hncj&?vsBZ2
zE`sEI%G~F2Y44Shz$v<d(|O(!kB-F1^qb;6bP{WVjc!Cx<d8aF-4UOCdG9Ofkg1$o
zwTd?r?I?1{aoE|EemA-^!#B;+W1U+slM@CMIb=LR(;F>q3YwpK=|6Fj+_$_h?=nuG
z1m*r8HHHQ6^uAymC-tO<7zfEQIsa<8^2A$K&tC2o|2nlOlSPq3?&}t{Jvp=2Ynp8M
z;MTsQ=Q}prQRI;0@X~qJ#H+hAoEFXzyC43n+E<Dqhtzpm%#sCzO!O_4_R)G>&Ufuu
zQH0Yu?Pj?rP0hfipvvEdKHB_49FjA3%a8lC=nsl(%Rl>U*X+5~5y_b;dU|)CZMRE4
z^*ZO9vnR<#9?7wh4^o*dvtHXdd1U(on!a+yC7eFW<?cQM;#J22Cl1Le*D~{Lc*B@F
z>cH3VqsN~lJ5uD3{r*bVLsGJ5ttxP6NKVx$nJqh`o136r^%rsakna(tBRQ#Un(?+Q
zJvC^T2SpC4Pn74%HJQ36#{h?p<UIa<{mpP&Z(HEBU7)598PD+RFFYg_WSfD*L2_R0
zJG87rWVyT14YOOOUTbDYAUWjwT6PpU<T@7pqM&x$@rc-(K;_DBbveFLNKU^KBCTd8
zRIGJgCpg6KdbX+bJT;xkc$~G17nP^J+v8f-VtckZv?K<}F>Mcgt?ab4!`#-QX}+Sn
zl^v2(5SjdZW09LFaHNo&=SF@qH38Xvy^na&dmkSgUwRIwPfe4k%G}s3N$JhA6U5E3
z6=RT`H`g>yBqrAFmT?`u=+tNBGj<d?<h&sFKk`V<X}cjEI@6{sS~@lU*b<co2HdmM
z^id>!(Kj_TYEt;O3!7@s<teOKy2XJ`F&-I$b6NfQpriU@gWEfe8GfcLWdn*FWrDL^
z<<!X)+xI!vyUR_B)U(rKQ{?m@ICnjo58Lhdl)Xvm_VNqMy`lmsa%2gPU3Ii`P3Rjn
zpWdfCj&x2Ai=fEqNpKPz+@xIECh>AptX`HG>x5H{ha5lanm6yf65JLP6|}r!#g_EJ
z42toP*WDs>0}`udS%!KaH@y4RX81T7MGhH{d(8Abt1WBx)$i+Za!+&3xO$4?P=U~=
zHn!#ZW&^ij<0s9$=Orc)tVS^&a=+>}b@h&xXAI->oXPKw%pDxvMll|;U1wgaO2&t$
zdU*!9jI5WOFq}h?BS*ALJ=D(mO@{Q4_$cnY#%GB|O%yrgI-j&ETG6Cz*25g_8=<#%
znfqo@<dFSdJnnYr2G&ve2_hFKl%EzqA48Etj_2>UUCr+X-KyK!QJ^>b+)O7HMGiSn
zhxc7nlvdk+x8>uMF$tWU1&$Os<aJzS=lz70=cfB@GOS3EsXlO!f#iJrCMhLjA0P$K
zsnsZQ$Z<GHVqB$?N3<zCr*1n#ZG9%kq2i6jmkXZcWXA@r>G96tk`{*|ha5j@%{L1?
zg6Q93bSlDq@;Pr<NX~av)^bySeQR3_znv0JYn2%kIU|U9@wJRrxwB#FzEz=y86wlq
zvZ(eKIloHYmOsii{INy0?dGjVJ1(5@rr2NPyhs)CDGWS&H7P+PL-}A#fr}kQjx^CO
z@;a9)hwOKn+o%15<JonK->+BDZerh(rx*{(A+MLY6#I)DKiA7fo^PdB7fKFs?=&{}
z@Sct2kl){7B01hC*F36NQQ2g0J-zBd*nxT)l0$w^ip!xkPf2~UZUo9y1~guTeJ>ly
ziC-o=-Y!PH8onpRL~`hTFGVkX<ogi5ze7WE?6aSk?74S;7kqz*dm5(?d7qYz<h=J{
zYToe)&4hTENKQ`d`3rNMzfSAY2g%uNJUHjH_-zM>hg*o#=i7Y4@hJ!H+<<u4NY34{
z_rHJHFnz>~CizyClGKSzB*$%(<OHT>U=_5BhU8@3y~j#EJ}(M5+yb0F1Kef?F5PIg
zq)Q(p=ZAQMUC8KMN#HP%9P&OJ4ap(DugA^D>2tMIPX6+erCsxsjpQ7gF{L6Rn>7sj
zi;3jCm@ocPJDz8~VgJf0R&`+sG$iNAr+b$le-STm({ABft-of;J%!W9A#PJruW@J6
zfx|{}n0sRlCk-z&01gw$xiXe+(O7ch9B^nzPI{tQ#rgv>hNmQY^*A!_)(7rMoIcsB
z4$L0g#_|OY8_5}8V3(a>-`clpejz#Je5WBf<b3Cz!08h-r=UGB%WXEai;d(w?Kxz}
zhuk+)fWt&`qAVjuXLdY&3>+GkqpaIU+|#iYINUs(K5^y)7Dw;5um=ts$;o&A?Dk@X
z_b1>mk(`Lr1M_F3R;mJrhU9#-mx+A8kL?8<?s1$xE$@;f%=S+>2^=<(L+%rpNY3o{
zlASX~>K=!9Xh_a7yNUnzRUN~Dz~LUl>0>zbU2ND=hl#*pBRMT`cB^BT9~=Z6CXz#b
z|DA^99J`uPHo!x{3HI~cT%0}+R;2ZL9y?<zaM(!BwDY<~nGJ8w0f&j?w4_uzxG8xB
z0EdR;{7|{kWO(tW1aP=Var!jMX`L!QG}jn7Y%J%o?9jw%2ke2vL~<tm*ci01Uq&u)
zXh=@%%8L<(pSOPp4)+L7pPZ5Qx2-qM?E@S(k~8Gn^@NSJH@n6m6UnJad}Mo}&~-Y*
zLql?0Bl<_&vwDyY9BvLyANfZPsYAj$yT&0K$(geL_`I`Em$yPZOeCjD$zN^c_8vUo
z(2yK%X~MM|=SviT!_CI&v(|jxv$2y#+yV|8$?<;aCRz~lO#?VgB&Xw3Pu`}tN`I_B
zNX}NjLz9Avdq+V$+$@|vqMHYXRa!l`4;(g<6aQnT)Jlu33xUH#a_;%vIouv(m;xLc
zk`tio{oulpDr?|y599Rt-b2Chk>o@_;INULa#riXDQhbIfx|>{tiub(HhnkS2^<=d
zBO76Kxcul0CE#!m;q=+8yildZex50C*htR9tB)mAMl~G-4im{C??cj%oLH0bM_2lY
zpN4q22XXogj83U~{awogIBX=R-bPNU(JS~JaF|F=Kbq?$w$rx+;LwnqGC5mc+tBtu
z*5?B_ef9<|nk4CB`wZe?BRTGAjmNXb6u$rt6Uhn8UVbj9PU|pmXh_Z{tsa`*I|@C4
z!_CC$^YHN6LW#F#A;4iHIXAtnoC;5sT?7sj$w_<@H8T3$!c5@Mkenslkyq~-w|4-C
zn}O43{u0@MW#Pl+fWt;|HjO&CGGfBoKh|d?XWLWvvYX*Y8zCMVk`uk|gYm42MYDjz
z-H+3!_O{HO$wqWn;INULlB_sig<}0!;4qP#O@4Z!1-!94fI~xa3}y8j*NGje2M#wK
zr%%ARrI7~~Dfb5s8_DUpXtGXt%ExfvFp-?dG4>0u&eaG84h_j^6`fuFX3LT<z~QFh
z^kIZDhOS$??~m(KBxkss@>$JGexD&8CXyqPtJ>OUhGEyfg@)wxTP0@FcTvVbh=-es
z(<hfxGsIz?Bo{brBu7(h|J=}F&%J=dL~^cm?A#`{N&XdZXh@EGMD8@Nj?%Tj;qJrf
zW0O+hKd=4JBjB)+oSW;z&PDi3cde^TB<Eq(+?>Er<24Wu4axC1FnODy#I8la;qJxh
zbIhdiZJvADGT^Y0oFXTM6JZZD1_OtQ<VfqsyWjd~I0iU0Bu9DknWBFBu^GVO?!oEv
z>3-afjq+*zfWt;|T!$SVNprLK1RN%k(`&MIQ&5R`*SbMNa<-?87aLnu(-jXl1*gxs
zA>K!AZjUO1cCnG1mZA6d1q_=w7C1~K=jP%tSN6r5<-nmKIZCQFQ_7}nHUkbf8K+Oo
z{i|m00={+K7iA+kwB-zsb^X+{As!}@lkmE5h}VvGE8x(OoZKoub-zxvuKNI7Hcp?!
z(9<VX&Nm%_c-TmeM)OPk{l)%Tz+oaemX~V>7K?xD2^<=dvs+yKmg&7-6M@4`!s+vJ
z7iU_^lSN(k+1N;q&sMih?l)78K|D+(C-%yzxC`Y;UDrD_B*(FLo<pMBtgd!(cjNR)
ztdc&y(akWS($`+uTEFKOHboBkzTa@GLD|>rdk+DQ2a+S<`7ZG#>s~N$=tz!!Jo{R0
zeorIdwC$p%581A167JK#P4T$^91fC`)S%8;u3l>joCqYx?8mV~(>A%j0*)P$vuh=t
zF<=`v2{`gd&V&&$T7{BjIl$p2;&cwBHOwz}-Zd0B=}68NqdV)aj!0h*9B(AYzgTQR
z!`R?2z%f8_$oJxS3Doo<-}ChPs`<fKy!<e{AH_j(vic-R>_{)10UQ>R6OwkkaPw-f
zX5cW89P<4!-cFo8Z(}r+$46KcK|CBJ=K*h(^5c|IkATBMa+dkIr9TfJ(+V60lC$B8
z`AzoyJR{)n;&J+%f9DZ0D`-s@hlAw!=gQ2Q@+08~#KS^z$_I|V)|q(H7B~zfXO7{Q
zhwIlpj0O%b4yRB0YyI+kZ5eCeaFCqZjybieo}&f=hlS)wr<ELdJEc?~I1D7mGc4Cv
zR95B|aCkd#`rOt{NuG5^{*Uzs$(d?+s%>7-?nsD-h2)U$i!zX$%K<LFGvlALARgX!
zoIavv`>S@9-Pr*g4w5rox5?yWX7V5F50W!6wB~iK?BnYY4+F{R7q;VDvvlob;PAHL
z^l{xN?(%d%eOJ3UNY3J8Z?8H}KYt41VIet|?1<92*Z0)}hk@i+oZh-bu8#2nIJ{V#
zKKp;z@cbT(+zT8IlB1F^YmMp|yB6TEkeq#Im>#W4OkLnGkemf7N7g9a?c)v{-d3DG
zESingGz$kg;Bb(f?QbIT{j=z=fWty^0%YE<+4;&!3^)uV$7Qmbi2TL=D!}1w!RaG9
zdnbMW#GxmF!$ER*w@uDC8JOJz4hzW%X-|CI=YZ{8;4qM!(vvxJj=UY=3mo2NoIYPT
zpVBy)>RW-sL2`C(lP=xpIxrnLEF@>7&(MQf{SSTy4g<+~9v*VgZOer1z~RN<^r1~z
zGjrsp(}}?0AUR@58}6!)yxp~~vXC6N<h^t?mS|syhk@kK4o%%Y=!JaO_oR56aQd{A
zEj%xMENMK%!$ES^j<l&<Vsrlsa9Bu=&APN+G28oP0f&L)lrHS#&Uz`{b-v(j#Ob5*
zYC-<>jpAM3kK-UYA?&gA$cIXsp<OH_r~2djqmvsuR|AKE<lKorVccg|%~Ig-qH+3=
z-`C?HIn!=ry?tco)b+hK7LxP%GSfB8IIjfS#XxexmhIj!d(MPQz~ODc>66<bQkmev
z2muZU$&oM-xfb%8oeCTllC$uQ#j|z3(i?%pKyrF)T6FBBR@z74@Ydt>aWAp9ozr?i
z2RIxgXJTuk=_u`wUF!x5$zg^M|1!#DOgO~DKyseeyXuTy;@)-M;YH!}`LS=zn|Y=Q
zy&)bBlG7<B-qBa7aVT(DNRDbynX&VY11o{UKynIG`t<30Htmo7VI)qUkmqJ+KMmev
z0P%2;9L7M=sghZuqkzLga*7>SEF1k}d?|1kNDedQ%ci7LN9O>C7lG5~d>@Zf#}jtH
z1r7(vd3df)c0s*KFmPB%PX6m9M>K35l7YiOatvw)__ft&CIE*Qj?+giv19b;65V{@
zaFCo)BWx4<-_Feg4hzXiw%rlsHskRE;4qM!DVx5V_Av}x0vui#P9NK2B5yyAyU`0c
z93-bfH}_+E$U|}9u#lX*dtvibu8i%v&(A<|tduqKTNA$@hj@7FaQaL;6ILbKrq^|!
zjf3P|PPRKRU{R(7#KS^zN`f1L#KP4c0*8U*%+=rTTj*8h3LM^AoIYEmDsp!l5A8ai
za*&)g`l;rb6-EOf9u|^QR_}KD<lMSS;4qM!OWyM>Qc|{cad@FPecGpm4R=4eng;Q3
zkQ^Fo4}E-8cGvwV7LsFEAeU~j$);;x$3SxAzwC~fVY=pz>x(rweO`<ylY4k5k=~^b
zk~2|b!4>-Fh|$1dAvqPJ2fxg#8Pc`SWFR@@?}6}E<Mi3Qc$154@U3cS7YE5{@3DUQ
zLpj^Ez+oXdYN@OBM5-^T0f&L)q-rH@m=+s74>&v)PM=7YD{a2-)UM}o93<zcr_`p^
zvtM!{9u|_5dz$Go_h@Aqa2QBVVnTd@RWdynIJ^*?J{Oq>4zFFdx)nGaBq!@Zs?PaS
zOTPk#h2%JNZttJ}!9W%`3?%2$;3xND%BLL#4sR7sABnls<s~nwbOMKi<fN?}I;E)7
zKn6H0BxnAOPl{6{yo!OtKyp-=#U8tQCYl0=w-Tq%@xzmtuk~I$0S*VrnSZ_Jj?xUj
z^}t~vIm)9SU+;G)a58WhNY44~kr%eDzp@%QykML@hm&tRNU!ht$NhOEhs6zT8h*k|
z3gTfQInvK7&&f%ccir!0AUO~39@y=y6yyx?@K)gTxo1CR`ULTWYrx?kIe|TORio5$
zUIT}P<dDA~#Xxe%-&NxU;q+0zBWaWuu&)u?#X)i=d46g2t7z@|9V!-*QxiL>HTuo-
zuKU;wB&Sd1&Z8PT>N}uayyZB3W|`~xob1W$I`43hob3;?J}bD5*M@jlNY0>Z<N6-4
zUn2q>29gsrLRQXdo{ltdc!4;5T3k6FN{;Pi1BZj;SS`<FHM~4O1vo4uhwD5%<5I}p
zuKRTiBu6!T+k5-cSzYs;7l6|zvuMs>;}H?xpj{j!$J%;Y($wh}rvZnB<ZNqC9=#;4
zw-<02NDlcslRST%KIHEWa*&*RM<w&WPFC`RcCnD0plRkS3)Yrt0f&L)Ovzf_Z|3lj
zKjxPoPM?iAQTt{5g1Vl|aFCq#xEb3@oH%2lT`VN$#o{XlqE&r7fx|#@F0QN_b8O>|
zKlabdaQgJO7@zHNxvUA|;UGB+m+Q{I;Q6oza9Bu=Wok>fV_5zl>kpDMGmtaNphofv
z#KZH&>639^L~rC(JxSnjkeo^VYbt8)a=NZlSV)fP9j>OK*SU2N4+F^w{QSwOSzoyT
zI6NPmJ_(OZc>eo?#sG(d<jlHpH7ob4d@OKSNKU-Bra@xGfo;HHAUT7JcZQYg7~cdA
zZz)b6(a5ulpSoEL2M!0xQ5dLJc7*%*kN1C&oPDluGWS=^?;3{;BqzNgxJNI>1b=83
z&l{)DN$oumlLPg-o)dA9oXpL~cpD{ryPi9+kQ|X-4P{kkUS01wFp!)VUpDsQ7I~iS
z(q{=ypRz37#}8s!yZVcR<Yd;|ja`==y$RxBAvsTG^$%OM=^hU_3?wIgZ&lIUySiQH
zW!_?(K0Wt~$uH=;;*a~QNKQuYZFT1s7VAU1SV+#-+=H?QYF0l04g<;IHr<j=7Z*PP
z9Nr?FKD`EcE<3Dpr~x<}Bu8h}#<a{$KkfjBh2*FN6(~<BKh<?zz(8_#u%i!W=p=RB
z$L1}>>Eqt3XH7+YU8&9-<(^N!uX@Kpa#$@-N}dhe5&;|*l9RD_fa*TSS$@D_AUPbP
z>1C&{SN8x8Zvjr9;{!Gg^82vvIdC{g&WO2J%Xv{gzQAE2IS$vCTW@c<k^~$El9Mfc
zafzrz0~0trFPuKxvNR$kXAZsw91fE6GWMMz?dBy0a9Bvr&`00ukB<?L1`Y$snbQ%^
z5z`(M3>=;(P9NWM?+>ZSycYuw2g%u-=l3+(WzbjPu#lX!ru$u2bzai|4g<+qdaCh=
z-{|9WfWz~^>9gUI<lc~zjZVPfAUPfBA2aL9ttEiNLUL4AxfPnPTCov03?%3Fk1Ug(
zEfa14hc_Rm52wGBT3)Y?u6fEqa@y~Y`+DH^e$Rf|jKT|-ul8plIr58+E&lXzULbH7
zNX|2r^l38=uWSSk&mE^vWRA+!H5tYGfx|&^M1m^UncrP{4>&9&=fmb7igj)kLx96T
za*l^Y)Xtu6tOFe0Je)pBPCjvIOAY*i!$ERta!!1fxS^Q}92Syev~_yzYw5Gaz+oUc
zHa`Myn|@Z00}gL4P9ND_@0+!M_%#8CgXHKL8}|;`X~f;y>(G}*?MKEeiX8HH4=x-x
zjJcdMwgNa-NREuowSi>}lLN(v;w$8OSL;Yo<dENgcOUcevGZouH{g`I;dEC2(5N!a
z;YIVq*s_m@2S%TZp~xZi`I=@SQ)npf4;)7%NACQc{4bu0Iwco0eOJ?V@1;@XkpK5>
z!P2qMb#|77G{<O)d>i}3zsZ%FJ|w59?>KkALrLztrymx5dF#|&4n+>xUzr9Y#`^CX
z+X@^OlH<ZYdurCr6CK}7qi;Pww&(x@$+`Zm@#s6h%VXjH!tmx$(}!$V%$&{%0d#r*
za5zX#55~ro`_|fBh5w(+LUQiEUEQ9Quc5YV{hFdd9s&LgiX8I)&}lvjW*B)*cHg@A
ztNiLmv&YepoWt>NJIZor?Ckn~^h|0xlmF-O@{vA;D+BJS!2hFfqR1h~bLw-Q;);`5
zht_}IF(r(%`6GuShn(-T?XTOZyif1-_}h0w7pC;<2#Opso)w9Wj+Pq1Ev9+_=e#s*
zj2$U*q=^6br)WBM#!P2XnziNrqxxTppW9L7kmFhXVk0AF!(3ULvoj}hxCL5L6glMh
zseRtcOB~*L*Q~t3>;0(bI!!Lr`kmBg>-Wj~^e;S^^D%LS*Yl30V>lE!WV`w<oH6hF
zWBSu5-DF?Q1q05rD00YtS3W9nuux`C%gm_ix)r^@R9jKxknsdW#<AYrYj`iI{(Q01
zwfpuWNY40*<sVc}iB(mo4SG~znbuY`o0`t#|38ge(CIP3e5tc0H|3$v&ft%1iX2j(
z!P_5PXufbkU9-*Gxav|wm<L4;sn3P+A6s`{*eKEe?wjVV!#JL56ggx(HP@D?oW5q9
z@3+?4{OWWmZqqDk`jGKlo!kFLj90MEQ7?`~=-Zs5Srj>>&N@E#j2U&qEa!^E8hRF<
zaf_hHF(l^u<Yq-5Z}r9M^(D!dT*@2fQ|)(ho;K7LE3IC-dxG}tl4+KEE(N7i)S1-h
z$Rhf>Czr!?Eu)OZ)?^F{q}uP~d=K}Dt8MczdUI$$Z{qg53%?j3<FOWZsM@S6AG5_X
zX-&h?bM!WfI+OZXv}%l?SKjWcBX{P_P7B8S3W^-^{{pvNUQixB%QV<-Kiy<}m~SPA
zB8Svx;uVVt4rV*ARgDOF%=@B{9fRbM|JRjCkwea}bNZ8vvTql;o;jp6G<he}M~xzf
zY}bs()?2SQ&P&TRnzQ7Zhwsz2nbhVf8INQA=jT7ddtL$#2g$iOKXmBw(vVNUi9mAR
zT$hZx9BTUlICe<Ra0B-6g1PiO;K(C6B39vgWqY=s0uI+1r*p<0rMje5`|kiJ9m%N*
z@cw>%8gq5o9`&b>CLSK?O_4*+Q}X`;+fn3@>zL!3gU(v!+iUyK7te4?eDg?(B8MD@
z+uyej>DS17pFbt^%re<!6Dnp<)0vECCY`<aBzsPXb<M_mm&UX8;*gwLxfX?Y17^u?
zvkjHX9CTr$Ba$;<r~Y7Hd-n*2!>WDOTP_;NQ{<5IeeB^kKRO0$X(cWhsnciB%<y_A
zYWk2m&-yx7Iil*`#g|1>qV%7wYRsa@A<xSPheR0P@5|-@Cj!Y?5#czqPB}F?aOr~m
zF{%%JnG`vsK1Zg8W>^(6cfW`bd8I6I!JbZ$L+ZmZvfmstTgD7HZH_pd{nL0QFE3>~
zO^E)q^@smB8xE2~{@?8giX3uYkpC~+3dv!|FS?qfaOA?t6NhgMlhS-3g5-=<kW_aX
zygC@J-;1VG)0u47!k7=A*-Pv_?yfEjIj_CnAOgve>_7kgHsv9v5RVm-^VBzPdTz(P
zb-)opaxQ*$wG(|kWxCyRIf(<|hs%o`aQej3k2hp@y1SjV8MY+og0)2il4E0==rq^e
zCe*NXJL`JsD?ckF$56*%p6lH$H_jhE7yhNhF;#>jhn%PL(+(VJXcd1&GaO<yYx2;_
z(rGw-bZ9}hqzaUm?rCfqbgiFHWDJrsX_mR%svp%1#<5ued!?sl*&#Wv`>l5s8zug}
z_13Lj#mNIir6_X9^LvkFYbP}7PZc?KcGL&8I%9{XsW^Q;P91ipAYsC!oTA<*M$e4a
z&q8t<{GOP_jgZN$xRLXW9&3Nj8_7vmoZ--#^T}zg%aKPF3M<CbksOteJI+^)p6P$t
zpsrG4%!i9jQ*ipU%voyKJmlOxXNzsFI*RfESxAn9#<?&*JN+KYj<edmmhEcsMsn-|
z${s3r_Rl;-zuDBcI7oqx<lMjhrFq1My5!Dijc4jd{S%t(ar#8RD5%|bJR-IxP`UD3
zU5;-SlGD8YLPW=oo7D%ly?iZJAZF-|<kST?u6?fC@p;pk1&ci2&e%ssa-6o$6jQN(
z_nDsVG^u0Zz%fmesp&(mV+{WRQfFt5(Sr3kk0OUW54Op~R>yfS=S;t>c5Hz|gi9cj
zqbTXNBhk$A3EUSoKytk4<NOm-dMTOsT?sA!dV5ft9W{N(b{(IrbH3^cZ_F1du@B1e
zhPHV~PQMc(t!5`wtaV-|IK=OIwkZ(FSvz~J^3kV5<qnuz->ykNdBXt7=`*QSYO==W
z{T@yax35@OWY%Vj)2E-(WF4ce-yI_tzpk}pu3_dOIS-!NObmLKKCr3>Z$UpXYuP}G
z9CAEIY+SSTSwm%2bZt=i+`SJ+Feq}!e!rEl$#8s#Orm7Qj^<(3mr8jyIDMqWEMB(`
zk<~M|wP>2J=x)V9a!PV|srd#<>%x6zTg)*JDP|!#rJP-PwNl9?5Dx>%NtAHOjeBu=
z+lz!OS*bfK-ts0<(}(P@jH~v#V|`SwLOewjIb?r*%G~F2Y44Shrgx&!EY<X$M<6-j
z%Bn9tm%e#!Oh4jk(s(S&iXw+>7rpd~{maAan4pgol9QCaW#+nz$3j7$iiy;8CiR&W
zb(zt7``NeLAFJOjI=*IQ97PV<F69l$Cae}`-X2a|^&9hyJSIgB8P9VgKbe|<Y`@+|
zyy(4;kBz4xIW<k9DsyAEB&9dcP7pWCR^(2=>2t&=MrXw>*4-l>k(VY|58lA0$RYJv
zsJK2fseNbL59tr$SE}qSJdhkSzl!-1jyE+6iye=ZH_P{+Q{?m|o;ygKzHPQR!Xjq0
z{)9bFI!^lnDRRjB8*OcGoYa@ti?Fs%6(1QT`pk+VX8;k;yf=D}iVRi8IUASq)`=(%
zsG!JMOmMyg?skvAeLBHjCI5>^?HxMRb(MThotk)YwRvoux4#d4z1G@(1F|Tthvf5u
zitktC?4J$|n^L)`p)xitJ&q!$57DmI3c*?J6FooPubjS5&s8^vYP-mIPC4oMt0)F&
z4=UHnUc)STnNBeta-KTRlp1`?*3J+(9!SpDJq7{Ak6ZTuM-9oD^^*5u_xuM-jc%CT
zGWA+ByB@i&lJ~W;C~`=ByicxqRI#G6$>4f=)q}7D_1;Jhd4G(K<ZK(KahASez>TxT
z30ZfR$I3M!*Hzo|7S{b<h|XWDUG}X1r9AU2B<IZj4omUe)2m^>>W$=(`&BxUL;fGA
zCW`A1+3)24fyzR1$lu}gMsmpidrS3vLAHzhef1`5-1(IJ{md*RN4ebHXF$B_Sm)%C
z?GI@B%HBv$l;_GdnYt&(j5_c&{OIu~$#jYw^89We^MpHpyritk73bPv+QBp1#^dyv
zI`L)D<<zIS5KkUO4jGT%l-s+CzCCb+cvuuUWWSTYi_SoD$lu52S>f~{e+QU@<b2)q
z>is7<$0<GZjB+=KOm$~b<dE-cS*=YTwZN<2CQm(4)x*u(=Lb^ckoQGJ7kxIgyVmC_
zccA_&>1gd-M~WPBKPGo#?=aQKEAg|A#7TWWwpB!pB8MD5S~o4j?(82~tGgziJ0odN
zY?CFfziv(&byhVuH6qNr^Pb15_mWu@Ipn_O23IbpdCoo^&)I3!JKre!#!=*uI^Ubs
z&TY9d_h^IPgRvh!@Dc+la>(b5pDyigb6j*-bcA@16<g-Nv$mtiA$1<vD{<vPW6QcB
z{ykd;%o#FRo+5|r_nvFs%cvzQZ(cttb-0;jOH=(gYW+oWjCy>ke{$yIqR<X^g;|f5
z*ymB?knK`>ayrxF;LVJ0Vrt*=;yDd0iX5`P$m>BSMGm=+k=KJXBuA<ENM2OnB1hfq
z+9wIkPu;l|)O04}Ia0dVW7C-Vsh=Yg#A?6PoMa<8olAxctUsu5&UZrYfhBFv#hDa2
z<ouc_X7|9!X4iap-`I*GhiuopB_17#k?A+Zd*~$A1RLEDp~xY}PgAiKZPE@}FngNY
z%8lo~$(EYqbRLoRXjO$&dZEIK^32;l`qnW>PM?E|PnGVbyPesYzq;Q+krQ@EPV&gX
z3D0_bz9AagdTm<=Ym5|<Gh}LK!)2{QE%07<sTocmx`FX`y=}|xDm7Q=6x%%77ekRl
z_E#pStk&Q{VCL!Cc-yZxcb#`ca_)ENv1GJedVgS#JC%}~;X|XyA=k0FI}hh1-_5oA
zxc`A=`|8@%rm@uYA+Ng~drQxWjocq0roWx0-NU(5o?<-Y`GR~;k7_)m&RaJP-95W*
z%sbfE<xy-GIZv01bw2qqNq!4(0+AfMv(MyAU*FILjscQ$e@Ka={<*Y~wmqD#7CsJm
z)n-bqzsPoNv~}_8weac2<HgP<m4l=o<Wc01{pFmxa(H2*@2JhZN$<BTndKTokwcEd
zyC0e>KjaKh5cxQ}DA_Mnlu41JLEQhT*BTY|C^)s?N@76g++_jEYDk?|WoG2++$-tj
zxBBfaPFvN*dW!LoI+O3|r6W1PAse?f?K?aAbhX&YyUh-X9!So^Rq`8#6#Vd%ERi&j
zH;TTiMv+6#ue4r4#`-&r!*d^<t9H`5RoBG8jl<SaIZf3}k?60U<~G+I-<`=qa*iDK
zWt(y~*Lz49Rfd;ced>+m96Q;6^t$$pb$e1Q7v%0#@~0y?2V{)0-AzL^PNtQlx4Q5~
zHI2dP^KMU2V&VI1NoQ1I@2L*bd7Xvi<SOwbn=BIScW8BNiO{lD@<wtT6&>zp-Pd*f
zrguP|*`fE2j^zBvtcxp{t9tFhP-Cg4V=BFxM&tBpf2^&^OwGI{{xE$;U(fuQEQ%a*
zJS%-nd(pRQ^wfR~mGtc0d#VE|a>#Y;k@p1GFKxp_JBAlDKB^xz--;rKTvxXjxtxia
zccJ>*sK-{RYdLl_iX3wNne^^;?w$7`RiBm{rcYTrG?i<D)4Bd@w#v)r+&*;UqeIUa
zh}>r*Ir%+y<t2LV^(#^ueCf@K;fYKnXZ?hgFHBaq4?f{NY|I+Flvgy09J1f1-wlZN
zJf{-w?$BQFG--i%y)jOoIaPigACetc9)Iv{gk;#km~<p3Gi^)c;gXT!wzu}Ay=#<w
z>4D@7d&hfh(R;*o&YtQu<pyR(YDf;Pd0vSK_t?~}jIBDB=F&aujd1#q@7JXxIpq6w
z9uzs`^)mT>ofSn6Ilt7y)~TM>Z)L#!c@ZRsygy$w3a2yq-d6;YL%#QAh2)U$or)ki
z<a?(@hSc;S=R5iSSPVrD+3)20V|EldWIW{ie)1GKWIW`1L=^_q^dULqdqi;*Ib^%Y
z_j{QXIb=NK`@J+IhkU<|tB=!%d_Rhf<dDx#nMe-#{FH{|kk3!KdN_R+-3)qucFO9<
z$#*utDtJ5oG#km`6@Dty{NeOs)q-&qE!A7|nG`wXI2^K3UovLJUC+_w>sMTOGEqW}
zB8MD@`;OF1?m0AgPkdiS>y~+L67{+`ePkaqIv0$Y)(ZFQ(vh70247>i>;28Vl22Uy
z;xlEk2a-d+*R6)+ls@Q4TQqIreYk&EKN6=8`F?mhl9T8@N%6&Lg*9*=(gVpM-=9}Q
za^_@A?Duf2QY75Ztk=QmL%#Q(j^sR1Y;~+DGU1wf7iLZ=+#%tC<jnBvj5XLfIBaJ|
z>4<ObiLccta>#kwK!5RVuD;cohuRxgjbp8BZPLc+6F-W(V|`2P?fh4fp9+jeW@aHd
zxzST>6{}ySHJ<NpAgy$Jwl|VP{+|dsl4Bzuq%v7%y*50@ZyJHqCu-Z4B#xu8CvdWm
zoPT?-0LjrgJ-M*?sZudK$EQ=|kmKjX>D-tH(@J^+r;SccACmJ!yumJHbgm@yJBK2N
zJYN(_7*AAq>$4f+VNv9e@sw@sYzq09JP&?n$qLEI?zE`?cx2OY_<bZPiX8I(M$|!9
ziKJKl3xLDbqNX#+X&m@v>ZaBCn!w3Ia;&s=Y!_**cMES^AYSvRRFOrIL+Whu=D7sB
zxNkIk@6U=NhwS%5Jr2y-GFRp%a72)tgXV8;zO+hC08Y_xYC4ng=-m9^vqd-Z7;qwx
zoZy#BJJh!g$%qeIIbuNV9a}3T$3j=S@z&%W`)b4|)M<EyOcz0Nw%_;i^0M((Tr)xT
zz_S9k<we7A`ZQ`?**NHy`O*%F#aA*XZ1ajha?}&T>)w|gn>n>arR9^?o`qHvIpjDr
z*Kin=cw4mRTw~|FVx!Nqr6_X9eqZUo%lF-x?ID>?6KhvZ%O6pyiPPswS!1n&PVXk@
z_ZTEcf9spQ^nsCnKBDs3p81;jc1X@_sa3sq^m1rO@nMa+Iw)zW6q0j!TWV0SMWhLB
z>Y{`u=ZPhyLvi{n$yxJmaCqR}(p5Vq9XNaNMhud3U#d~^P_HYMU;12#+@tJcV~6CN
zEc|$^Ae&K_Q(d}k%<1%fQb-QtoArimhs~v7o|bA*(}x_-)3wZs>c3QtkZZo`WM~j_
zERG_F9M2;c4&dnjaN8U9rQz6vx&u0nNY1CQzBc}Q-QIn+xUgJHG(KCNB8O~O=lhDM
zy{n@7%}lyGQ>kF#IIcQ1eaLq8@$>zX_HJURWL0d4vsEaMjpS@^EalE=adZe2m8|0I
zPuamla^$7=TwX!@e0YMPOk`_$;4~VNv&hfvfa?3fZrX-Zyr()}mglPB^f@?bgYz1Z
zY0KItM=dUV)%J{y<jhW*sPo?X$x4kESL&9f?6|;0a{AgUXAe2xIrGhf=_MbQtj(ZN
z<dFBD`>M#D&(dhxzg8}%|MbCmb9qB>`l!B1+n})g&H4xjr8*O{iP;>A9CANK{w_oe
zMGiTh&nv!6m09Ml0{aa+BqvPi@<@?6i~9mc3dvb+r7<vdMc*Reln%z}OrIvTt$yr=
zWoLYz%CPsY2#!H=$nUY*Avw?Tj~NbFIl3P_caTDI$mb5FgK+wg&v#;w9P;^&9Yqc~
zzsTo1bc!5uJa>$~=GAlD&T{DYrhzzp<SL}KZpbMcHoP*<{<!UNZ5EPqL(ku&^6G#u
z!0|?Mlw}8B4U_m#2pl?+b4^vu%v;YY2RKawaQc*~`p497dHqJ>pylAR0UqouBuA9v
z-pY#ZOM~Ct^+s}}v{>@f`Yla>-`%AnId^7{%&(tjW%GVZ4^iXr#F8deYWk4-ja!48
zB`WT0wFFKcMGiTh$=`Jhq{t!PPuMU%c|)s~%S(vIjv|L_*W@|H@20x?UKpZs^>f44
zks0z7Ib^#eH|R!o^cgW|=_m)2J1IFYDpaWHOme~t3tJv*Uuew_?aiA0ao_qlBq!p?
z-kXid`_tTQ?4NIa-C*m8<dE+J$Rj!A`v4U*oId1x4sl2h`Cfq|l9NHZys1h3{w7$T
z<&hlncc?1*<MffqH%(j`Vmb=;8*xYu`P|$Q$swPc%Twf#^OSsU&Q-?gLq0cWQ{<5G
zkk8FMD00a8PChqRLvqOH=Joxk=|i@Qd~TjakwdnNd~WWI<dDzJ=|~Rw+`LJNnm%N^
zm~|Isw_e}d56(MTNKS~%u{81YeWG~>rOup@?^)=L<j~o-Mj4!{JZj@?R6Vs~?N~ZR
z4%zQ2&D%5A?y~(<&!{~+X}<lkHbtC1u`5ji))(*boEw+^c<^ra#ypA~G9CvPr?syS
z#VuYPn6P)DqPGl-B8Tj+E%k+tR_U+zF;ymYYMptqkU^0{UZ3tcR&=RJwZ~Ee_tEr9
zN2`-k6ggx(tz+um6fa#m>dGhM@ZKSVbV~c;bWR$cU!?K4dBo^vbXj@VaYivnj*IHa
znVVuK*$!V(+*@YN-UK@&C%@M!rId`ugO5TMw&YIrc_)SBWJ<9M29412s`i%OGf88g
zSE&LueaQZ@FS~0xGF8<6>+Tn}6P*_yU{mCf<8X&@;i<q?nrC4=dr;(%`_*mBJeKT~
zlh9sqdc=s(DZA<!6glMhIZl&E7+W&Dy4EkXbWYW=>pXdC`jDJDwO0$Oixt%m4QSr)
z5NvURLy<$aORu_^r*iR;X3Nv6jXTt?TE`(d&+YG>(^ye@qwu)j4rMDpTW^XSvR(aJ
zI1{Dl4*f<9<!ME_O;4gz<VX|W<7k^Z$=T5|u-8)CxOo59l{cw!$awCymvY7S_ga1b
z)2`mH_o_EG$>I8Ie&RE|sGz87-IA9|@}>hWXCXO5&8*taDcpNG`pFnmO>XN~Z;Bil
zLLa|3^SthxZa1&&_aQGgc-q)NiX3vDKDV5xQtm$~57v1riX8HLkvV3sF6PKLvsPEm
z-t;1P;}1GT4%uH*O=l^lgeaJ<l<{wKbvhr=)CbpJBg;oSZ_Y1IZF!VXZ{a(TmWAXT
z&>OwPGG6IYUhC~(hxi;zZzM-1ef;STlflI&7W>QO^clR6j^vQ{51V@9^f@r_(!rxM
zWxVgsOkq6C^4*q&<S6JaFvv{FHa_9fk}&qw%|dS^XB+Lv!j+Axy`RxbG#=}<exM^c
zMM-<*-?l&2Xp?ce-&Zwbds8o*KIHq)Sx63fUFnVFG}UEy3_PjScxY(H820c0dpeS1
zQEobU$wJu)pFgY^)2qd_xJj0pK61qRb4qtx{JYZGqku!B7!S!g@v8dnvdIf1WQ)D_
zy6mtzV@Hugo-f)*9qJhzknB70<E60uD_3bz<&eK;6<am)<j1gOr+~wt7!S$u8U6g^
zl%-;JSw%+--|4(arrKZR{wHYlgXDxGTMKI<JBP}ZJ+Eq`*k9zjdQH=M=H<j6lN-gi
zId>}T*_MaoXp03XmcFPqw&~wERKe3WJ`l-S9{JGB^6R1K1q<F+$y*r@F+g&-t7Cc_
zk213!E?IA+Ju~ron+&z_OzLbf=F!(PE?1%_)LD-Y-tulfha!j6Ic@utD8I8$Pb^5^
zR(Wj8x8*E~9CBZ0>$j-0;{3Z7FYPC1xickf94T_h=OFJk{^)Tk@!(VI{)gA@81?M5
z0YwfuzfMos(Q|P@WA<o;*3li3ZWF0;$o<B3&8(sBKI8pI-ZOox9iIGNgkn4-$8>pT
z-`6Q#6UXb0$S{AEv%Nx^TECO?G~~|a8Os!1&cQq_qR8n_tcN9896MHu<A*kSrf$Wx
zVWX+)L#~JN;|_k^b@++Ni;5`Ujz^mI9u)N<e{bijx50?Zo?bU#-C$DWC=l%m{+#2j
zes1y5+vW+co6j!p!=}g~$Dzr-y$NxWcU^z%OrH8>a-RiM=LOmCS>HqgXv1ZS57BSr
zHCj&ewxbviIp24jG9EdKadgP#qqPTyRi9Rur^q4onLD*e+p=fu%+Wc|ip)=bIqFD}
zLyp5xk1$=sjai|vK3h@b$P@h~A(ybWz4q`8!@y08;u{uBrK&SI-!Dp-R{89H*TblF
z*Xqi~%N<lXWWV<*Gg?#A|6;(sg{ceAh0b$eQfwE=G0b3UR;tF0lh|1MwsbH3D1#!0
zY}eH9t(9wPW?Y{=jdxegHhCje4jGT}4}JG2%e!K59;8u>ha87Z$G9I9TuPsI9J*I?
z?D0CydW!20dHuD^+uFU4@qjR&;l4^{A5SHfQsj`ocgh>;-x76keV$IKQq%R;?Y*ha
z3v!;`*_FS$a9!kd#?`%h<Q{Q#skV#M$1~kDK`$tb^<YFJ!-Dq7HH%`q$bMfe{ZiwH
z_vz>Qp}liMMS6Ns<&fuP^13O4Vm#zNfxK?ALUPVHd}+8DIbj*+>D=@4d|z6NAUW6K
zKCq-mMouwuIFXrrzJ*pKMeTe_wu`)8jzDtA>t!n>hkRZsg5(?()gE<w&l$GL+*Jw}
z9rvy(>WR}Q^>do&iA2q#WBSy-vaq%`i9mA5`x{nB&V-83tePi{<t2u<C9l-ly%Irk
zY=&zj8^(woO}Ua#V)CZLzDN?M5Ba=10?GMQ*O$I#Pll(fGB-u<(x_opNDjMak3J^%
zPp^OR`HiQ8MthV9lJnT@$Sm7ioFm4c(qwl}+<3o80;iAq3+JIulRI9Im27Q$Ir`o1
z2qb5&AIoRSgFRp6b{ut)@0}BCh2%7HqVMaKj2QhyblH%V1!GT%AUWiHzoH&EeRPao
zWG5_e6jOEdU3*RPXj=r5Q?+$V&r9M`eeLf{)b{?mYLFF04tX9tzbTk;|LMKTMfX>f
z>3eQjAy1J*uB#>HQ(t@-ce~%4XX%4i=(`42h~xBmL;o`5=(5kbt8Qs0JU5J1i=)UP
z&&!A1KC1WlJaR%MZ-!L!(&$VkMGo1nLB97_)){`c9``oB-07Tl9gQM~j7NHJvqtOw
z*tZtT8<yErPh4CtMok}*)7f+AhhgE-4cb0Vt7_I?IGly#j8o9_aB&S=KitK<y?VyR
zv_K@M!B%TgM604%VzuS&_~9RhF(`6Ko$se?W}EGA_8fYa9UyXchy+g*r_YLjha<ck
z2ah*mwyDdU);M2;<OI#AURS$h%{up(7j;@IOm@T|Ihv{o*VGn?+bsR^QtI<1{dPwr
zr$gWW#e&o3`}=cUEbe}qp-H32A+HO1yjvZwb+6xczo%0!Ns0FI<cZ*P?rD2ru+QV1
z6HB!?>{5NNGes0R<oc7Hbnv>XdmpU>s{ND~Of<d{N0CF$3x(cthh}Uq>MRK=J!Jpc
zXE77WX^xWCu6COBQa*fw=fVuFNHvNavRwf$g8h5#{jnnEMpJr&%kjvz&M%$+?~k|~
z{<kE_$*?>@3y#?|Y@~JgDFxqP@gj;GQXdP&6#cI+?XnM7$&QrTOMf4O<g734!@csV
z@>_9XX~WR*_bxjkIf(<VW$$7?`OeIqT+?%&L=uf6htwy?z1MOni{nkO&Nuy_rZc(z
z43E~6=c(UQu6jE-{KJfvRaq1{<ot4-V(4|F&(-=iX{!abiptJ06ggx(MgtRD4v8;}
zj=OZm#wAW|mK~C_^NFf>^b(gS&IA?PZ@1OgNKxdF*Om3AMW(^~UnxG!s-0D;>2an0
zJ2jojaoDi3pyx`_WWV_@=dHW*c>T^SBuAYcb?K4*O_y5l?^&5ii5Y=N&a)x@z1AIH
z>LPu2k+Qe%;!_MHr`M#Qvpwd9Ezj4<^}H6hYpMv6bEjjltNzYs^2>EI2kMRaC{g;2
zn$G0?y5;s-o_f~mPePxDS$v{<tl&`Oko`6O@?6$CZJpRd!`EFt<#BOf1d?MpPTJ-B
zSMk>k!z9u@_N=GbQRI;G{iV;A=P#<Z_Q*`WVLr!GdOD3FhisSm@vkCnv^wW4i`BPp
zzOt`({a0!_lkt$xPxB~p$oWowzbO#OaXxg?DV(Y6zvo-CoxXx?g8`C5Uca|}p{5Vn
zu2kZFLLQPsUY`acIi(eu@=M0-Hq|U$w|jnnw<H53$Hv6!qQ{%1-1g?T<5$ZZscid<
z)8}U2nWpY7HWG0D%0qJA)-R0Q=6TZ9Dk?KpX`ID?KqQBJufPDwA%Ewsjfc~Re2+R0
z$(bCGY-nkI{mQHDYKv7FqcQ@KoS0olK0C;T8paQ<A3ytazPbUDL*7Sf`-IcSUrP4H
z<RZiElc$at>7p-lJ`c$uzkd;k<Ww@Q8gHceC_Jt|TAg)Z!({^`hy4CU+ee%}<a_3M
zNDld4Qy`K<-tRR)a%$NRRP1k8jM8}OUAr>saa7v}YWk4p!Dq);dpxx}duh1if}p2K
z8!mGwa>#XFmfe~2X&*bvAz=65Yv=N~EF`Dh-aNPW$Pd*cG!2|`{Z6VekesKYN$)-m
zTp3muzro07nEqqldusZS?TU3>$W=<5bfIsjOYp0yg;g9RM{jHWup)!C8?-iO%-(&q
zbUh2n$(-hKNpjz|qq!zEtA_5^%wbUEko);P3D-*lR=KC#s9x+nulZVxJVg$v&ljVJ
zW#MDe>`xulpx<3mu&Cl4PUi;w^L>0Ar)%xqsdOP^n)|ajEGPHugas?>LqDJ4d1mWx
z80(1SWE8Z8C0)6h>s^y)wulk_OdiP@GxXm3BinMWpHx!66My0L<BATPK657Suwz*m
z7MN_c>gc_{!z~WU2~D+G`Dk3STK=Hvv8HJ;(;X>t$aSMm{!4sD?40JQv*hlW$K5+Y
zqsSr0kK0i(rQlv3a;j$!KQwt5D$i}l=`(3i(zmx>yWW|;pxaIz;^xgpa@s8}Z#vq!
z!+U1flaq_btTbXGIXtHgCGn?{#_eD7{e7j$5<MD{^XkG*r4*4Z?RqPR<#y&o=W*L`
z`q-VieOTRpw}YpCN}`2VYYQ96nd9i!R=j6(#V74kxt3<vUNVuKvQ}rgEB*Z#&L?)t
z#1-5gK|^vPWmRt<>8t2D$E|md0Sgtzao^(fIkIHwyvRO1Zk-RCs--l<Y8)HMiDJ1%
zG)*|Q)@D2_px5G?kC;df`MU=+B!}FOao^zdA@@;iB!}EbF_9c{-%CSsirhoiImBc=
zhxL%#iqofj>(d8o9W-2EzO#{>_Xjukx;x`ok8fsY)%!)|Zemj8kn1y3?MZTv`-=OQ
z-+oopHfPCJH6-WXZcqy|gbD~15U2q8Jt%>Wzq#N)b==?F3?WXafKUOU0zw6Z3J4Vt
zD$u0>>~FyK<Cj2MiJu0mPo%p*|D_*Px@i}@A3%N&3-s%z`rodYPDDh$ha;%HFg}Rt
z!sLI60<bQO{x4~duo*%HgbD~15GwHJC;<N_{-3%J`g2qfQiTc#75Fn0fcJ3VJqWl?
zf%l3bAN>A|7=+A!o&s=w0{hQvfiPmB0zw6Z3J4VtDnMNUINx<=sS|~sLIr+Z0ob2|
z1tO%u!tYo8-S+k5e1iDF!gCU^kT0}C1%wI+6%Z;QR6wYJPywL=LIs2h{P!yW&ncj#
zWE%2+*1~&Rz=P|gpXCVsg$f825Go*4;IB~t?r(wpYmO>Bico<+M*(>MLXiD)jw+-I
z75Lv$0Ol98noL8!&<Yj!6$NC8%H;235XB+`hz#=o*AT^j+a&q@F1W516!6db3*rd#
zg$f82`0rJqyY=&DTTZUeWPS4gW0B>;v`_(|0zw6Z3jA*>0OupHa32!V-Khfmd$90-
zQz6}5{qD-)xmI_6RLh}#;6IrEf!x27e&A1DXM>*(IQ&I+?_YGBUp)-y3YO%-?`?o3
z%gHo6*96;(?*NwcC)2QB0y~E90G9Os+4OLJ1sGRT_-U{tPf$MTCnyc$5v(9TLHY2#
zUC>jIpP+nLC$RMeajE9_<~zdp(xF=MH~IZj<{`YN49)KDeg^n~h4J;f)^*^L>$^F>
zfc$^gg5rg^VEn;)4E*ja_`~=S<PXOO3;tjQ)g$xC;|YozjssSf4<aq_;5hJ}ye4Gu
zEpUkJKRpTk^Sh4^?SuwQ<bQzQt$}<&$A!4S4=m_OS}6akEjbUmJHB#v4*YT$cNE>b
zb%S*n9ARFN^Bc;sw!40Teih_L=EFFG^^qJez$4=Y4(JFL+70D`>XFAK{r)a#SZ@Ti
z2ipCs@xnd??pML_!2T*<SYN1sPywL=LIwU_3efoBfF+}Yd^it~7S2zk1rD5Np&p#y
z!NU2Ayp9Eb;9xE6A4m)P4J=n!@9(JqIc~^)hWk{oPb6DG)(1ZrpQJz4G{gZG>dC<e
z!jjifMDaf+Nw)VN6ZlUC`oGdns<OcPPSyYK;s@ukzbc-;`gng;y96Bv*3mzEzEI^;
z^%K+{s`-C)Ka=M%s&W2Re(-x7aNi0n_V~cV))&?jDj-yVx&q|73G<Jf$8-XT{XKiQ
zKS|(zISK0|88?8*c0xYZ{%#&Nj=#Dd><9m>=MiLk;Ci2YAD;9Rl!p3($|0ZR!}TJR
z3$nj!Kk&Ps2MdZ<m@ia7sDMy`{}lybKl7{Yh5f~^as<_fIKc|?`>XQ>?Wf2%sQQuh
z$n!2){@<1+#}T>DAk)8Ve?e78GCrsW`DA=h4*6gqA1vexY7gWOfeJ_q&!K*{I<yb!
z3$lW^q(9srBmKdT%>UIi>~q2XDi2$~yM89Q@P03u|4&Ur|AH0Nj_%6IdQ|<v?`JJ}
zJTgu41eFWQhx*->gCEQvK^FYLf*<hV`W)sp<o~BFe6K@L958<bm6Q3{^DfB|riBXp
z9TkB0PX3Ou31j-_DDZbV50Ll2;XFku3FkGi-L3P$?XI1Ijz=C}m=-GVPg0<}asRVz
zf%oTO{*mdQ<q7idZe9zj2k~^*?(WJ3@gX0M1L=Q?#kLz;@1LT}-!;xZTX!sfC|@x0
zx(&{^SUn*guvpGtT@Ts~>jI>q9k9QE=fhxO9R*9qO>zXK$$Gz<hPbI(LC1soP!8=R
zE!?MoeDEjl+rj(IQ2whH`T;oC_#g5igKyz`lJNa|=x4Y;3+~VkNDH#y2NrY!E2tis
z595l=7pDKa6@dK_SXdXplC6hv1(q!T)ilgo9X<%`27Vf>6F&`>Jgx<q(M=l0KUg~7
zA8a?(1s21)16Gmm2^Q7?u%xcw2lWM6SbxZJc%KL?1Pbkh^zX8y?hrr3C+Ik2yCDth
znxJ}rm;CkoK<4l*j2l7EUtqn5c0&JyUNHZl9QqH^Q2x8xPu>UQ@xfKZ0iZpm{CqNA
zaPO|)pdEtdFL1iE(R>Hsb?5(Am6QD=D8BC6590{phWQQS1=27+zz=M9{Q!PcEu1I7
z--!PK#s%a<`(b>*dIRx-pU?^w5Go*4K&XIF0igmy1%wLxXB8O8KRj5to`L<H>whRb
zxG(T$9eyoEaQ|-nKqqYhesCPv_lNTR1o?xX0Gx;vQ2=SMMDcG=!u1KXo5eqZpm74%
z$x!dN2SgDF;~VZ*fL>s`!$5mUKeAnd{5B931^E$f|CS_=_iqmT47mTI&QEtYj>-83
zX^7K?&w=YuNCO`%<iqj7Y6u7v$^{ft&W3p5x)UsA0O1Jt>51&$mW2BQU;(Vg{{ZcQ
z{GV+PSsys?yG4-3S_OVZs`Cfpr|J)UGQJRg2G!>|<b5vSQT;ti@Q3&z4Hn`c+XeFt
z`T@#GyBI(eEuHU2-sb_mesw-Udth9G6%-z{N6`H!LG{Rd_+20Pz7AN>kM!Tb&wzH5
z<$}_{16$1h@U!DV5Fhja3x1F$E$9vT;4jF!@e5o8Iq>sg{DCFcUqR!!8>|S72hguO
zf3loxCz&SwyGuj;?#2Q6y(p+he(xUcV?sHkK`%k$9P}XPAFMx64|rffPeE2t-0(aB
z`j^xR%7F{x8`?$s3rYhA&ifEIv<J!s)feXf{}li|$@}EprGZNNK|WOr$A|Gv{_Yy2
z$$mb}KLG5ffdiKGry7sY?_Ualj$mQ_{ik##*P);7CwMN@T|M$RKb!83k1dDw9qPln
z3Td(&^1HJzf64R4YJNpnXJH(4#}icE-MZghIUFD20ZSea))8nIS>9c`yL!Ltx(xQu
zg4#jGNzOZ%kDwduufW2%g>eslVD0z^0Is0(IK%<#EclZa{QhhU?ZO_1s@_<>u%1u>
zp#nk$gbD~15Go*4K&XIF0igmy1-es!yq*XDN&F9BA)mZ&Ea?6!T<?K}`e5O>@Eid0
zA>Ca)@COcQq5NkpaG)N<F@c`}*Kv>!7W_%uT{-FBUHWHva9@JtlKn`QlR7{-Sx*fL
ze$qlazzV8PmOB%U5GPoo__rsg@rhvJ05A{WevzPY4DEq&1oeN`0tZ_U>VqXYq@IHO
z$a=!GPywL=LIs2h2o?A<6fpQRpcI(@spC=z?WbH|KM4DjpQ`*HaE9kUi2{xd&zazR
zn(#ak@?oC^?S<z!Hhi85-@<VO9ENf>JP(EAkrm;+Qn2ArfpCQV7sL-~=s!Wv19kZv
zLFL3@{w>+v`$S{~*cXB&%OOq1L#Dw`X#buHz_<hZt5L#u1`bSv?w*5#Kh%fu3iW^k
zeqhP@2<-q4_`&ynyR+c`yR4wNf0YmI{#m|oe*R1O5&RB_LUzPOemy<DCD%zf4}c}l
z2j_^68%x9i>phVzFbU%w<_kD>H{PKf{Ha=)XW&1Z|3Q^+K@al24%7n+^{HBDC-BMf
z4CTOs{Q{)Hl5s&kX`%lnlLh=V<imS~0^CH%_B!z$;k_3@^?o*=7*;=9{ipq59|IMk
zUm*QwSyE5zamew4<zVY&^D8FtJ8lR6MXp)=eCSWG*yBJws{I4+>ruTvg8QU{_y^K~
z1M)4z4;G5aG~|O7)X!u)V7~zM1ljJ6C#W7aKaXNX(2t_Kh$i1r(E3JlV4Q;`%gHo+
z{}I+VLHz*v<4C|SrXfzSfLp--0OuRX|Fi8%{sE|-H~#E+y5qw*2Mhl9`5&NPA^%sc
zHXi`vK@bnV2i2V))VJe*fN=or0SkWcJ-`!?LD7=_zy&J^1Lu2Khaf)KmqYu`2?G30
z^5^p7fbrnNPfHUP!i9WD|Eh&`4=nIzz=xl-&<}9Gi0ntWpCkxtB&dMMhv$G`p_pt3
z<db#`KLae37x4pzeY7^e0KV@HelXr4{ZF$nKLo{XE2sdOug0$j7BFzX5YpYn1%7{(
z{#4_ExCB{Pr@(@r1AGu*;r)Mz1LhT2s5Tou{3bh;&w=9uw!7oN^_rmiefaZB1%Lu9
ztRtjeWLiM=pUws@SU~{j2SMfC<->jQ?)<2h!~FxWP|pfJ{D&=^kFjB7^DDx61T4uT
z`wh}y!Jq8E^H9LImPGo`PLkK}WctrOes_FQKQi52ePQ|URRG2>*xySR(tcI}LF<vA
z{Ga6u{e=n$75I4tVE+h~Dxtgc?_YiX`>WUa|CMzM#s&PI%AeJ4IF6w4SH!=NGm-q4
zM<xFOq6Ystgcv_CD39U$zvKhI^6f~z?aB8CYt2u?bs68S%RswfA1rA9+ugkA0`foX
z@2=rw1&V3VCztOJ?W0&-==NW#z+b&i{+G)5k8Re^_W#fN|6_#_1};=UsDMBP$aNr0
zpy$5|$oDG1T^&A9wB&IqR{J+M*uMeK{NFtOl|kOOhy7p?;SU@~0r^C>2>IR|Sxz+#
z#}(uc`_k_G1l1RmFGw#z{u2ch!1F@#xl{__-`)EQOu}DK5}un2dY;hTbJig+aQFxK
z-Pg7J%NY@f6D-*tIPP$Mfg9g?k&gT{j9Vy%>mNwNbr6h`5m3OlQA8TvuL66RU*6qw
zIlw^tkp5W<aSFOz>h5_z)B_G!hy%Kr9G6fI^&w5xhw=b$;9Ge9NIq|e`tbW><nu!o
z!6B1yJVClnAS#R|(%mJ=_`37|Z!ZVE$#(wgb35PxpL{+^2M4}|c|DNGha`++NW=I8
zKID_*4f4SXDksM=`2XE4scU!Z1+)j&13`L&AJ&rnMW#tExvvs5|H*nkn}+ixy!TDU
z1?M6DZ8#C|C+7p?!|@g117Tskfow7OK+$&heknQrDPp_aw7Wk2|36UmBil>vr%&+(
z-$e?~KRon1SV2*d-``jT9VV#4FXqGg)Ex%)BVfn!+X)uxljX2)fpS=<VE+O(3LN+r
z(y)I43;h7&8LH{S2g1U>hsgfvWOw~W6{t=)R`AoH8&TYCvM;|Mp#6~kU$xKpiv87=
zT(2N4&yNS*PbSw1a=n1@@qpj2e*F5&_-U{(Fkt<Lc>(!?EL<0Y1;3g64`3mmv>bjM
zQ~3oD4?kN3ELjiqplV^hf$fe*mQziW`jcs@oZscA0~<h!z{|b<<yguWR*+sKZW{l*
zLY~J+KS;y64e8%);XDNQL*Tq(#vf3S57$``4_JtYoCoCfE>(SiM_L%a<Z-}HjQ;^F
z%m=XG_p?@>4}kkDFz-n&nf}@1{Mr7XA8G&W<Nl}k&|m+l<NxmClH>kY=M%&S^Mz^}
z{QgrG)+_S(aDNE$VVuLfgfx_cg>p#$Ro0l|fqwQq3BdlY@d3QwW#RssAl(J!lgAh2
z_kY-X%b+~AE^Qch3GVI^+#wL$-CctPm*DR1?!n#NA-KB*cMtCH=9%HHuO?Hc&hyT^
zf4-{o11^?bd-dA8_uaj^fj{+sjt8&<*8QLIpX2<Mtp9ER>@$GR1;9E3;9tf6yLv!=
ze}@1*fFD5qe~s^#J^$_heEvC(%X<R@fN}2^<bZVv;K6urIPLsF0O&h4zv}@qz-<jM
zfdIuj^1l}VaD80;e!V66uBU&O0r#~{?<W|=yFKe&hI_vrG<-+X_dEfZ^?m>V9smOF
zd)43bF?dIS48TA4bE0=Y`F9k2$3KtL{XNf@cl(!j{5yCL0|Km5!0$T(_EW!i2fKF!
z=>LxQ|F3pHegCKV|2cnu%Kt7eAP#{4ZrtDb{lDh>yYc?C1Ma*3)c+~}Z}SAi1MpA&
z|E>I2ypz=bmHDssd(-#x34s4K3J9q5UGZl;V4nn_=lcUtz<#3t9tS`GFJRvTAV8n`
zo(DkwD}4S7KR_J-2#5#l695G0{|*8EfZ+fL*q;Ch*rxyp=!*mJ@5cGl4#@xC#XsZ!
zN}dHAz`H}y`{&GG`TyC6=X`g3|Cs!%u)oy<))C<I74TdJ5C~XL00ig(aR3Cw1D<OD
z^Z@@q5#R^V|JC&^>AM4f@6S2_;{T@zs3U+Efd4LE!oTbIZ~6ho2h@}LeVt_f5&yrP
z_dn?Vo4EGhH2<jpjQe-_{kgvXg6<#nKNa|=0{>Ltp9=g_fqyFSPX+#|z&{oErvm>}
z;D22K!0q+Z`;8+&etee!eNuoPfPXhI;Qj~T2lzW>0E~P$0N&g11UUYI41e^av)}Uq
zAl)DS)PKkT5%3%fkUufN@Q#4K2|x{yH30$dh5&%W-=O3l_CMu6%>QGt`Hy}GpkAHt
zjDP0;KOX4+GVsqnFkl@4X#TVV`tLXI4uC#9!2kai0q=|byKxTxuH)bM0qXxJ0>S|6
z4uF8;1R%f<fPlLEi2yqQ0p}G!{woBWH-BXZ=mF;uAWy*gQ1-sw{yY!<YJLAX&j9}a
z+xY>+{fU3h+n>kxXP$s~K%WeNfc*-9sXGv{WX{X08QM-O{YZhbZ!z~oAuV;Qb+)p(
z!{Vun&E3G_VggdWv_Q-9o*ozcp|Hqe4BYg_fz1~&A5kW3_LurVxM9K8J3HU(vex&{
zYaX`m2a-x<&pTQlS(A<EhjyqW&N_amr$ZiV^QO-71zt5he|?FW$Rapjd+TU>Tey?$
zHbq4z&;WD6?tidA;}dadixgo$XDd~%8+>bj3pz<_<OBDDh3F}mA`a~oIyAlZsM8Jz
zI|wqpp%iF)VH^FS=LCMzs{Q(5PwQtAAK02ur)94ZXS0q)EKhhGEmW;VZE!D-2E@Y%
z8_d?tH|4kWi|euDb5B~&n~wXjs9pNdaIfnSM(xtzdBiZ(2oa-D5x;6-x4tDbOXW9Z
zjk-*=Y*Qg(Sr+1Onq?#t)jG=}VhveZITqp=3T&i)w9{Z_%H_J(>d%E*GoJX-D><oP
zmj|g}V+j#Man+}BqS3ba<*XLRBf@08n@iFnj69#dlIGH5%pexCSRLVIuFje~a4m>=
z=+fED781KO$eU@c;AU#Cl=RXp&L_dvMTG7wiR9Z_+B-v7wpMthSF(joXsz-hK%f1R
z_IE**0o%tO03W8j3loixvaQoFr(D1Z9}a@8ON(;GB5M}mb@gLhjS1f_SO;I0_F^>l
zr-`_}g8-cXG9s7dWQr_Jhpj99$)%Nt1HbF)C;wpM^X=-Qvy4HDgrL2<i^zL)2Oii6
zSCtdPRJB<f*`fh^_yz(rfrQy*IL20MS1X%;*XmYPl(DB-)-RSjFU|+QJZ`gjxjKYt
zEuw;FtBekm8UEriPM*{3!^eG6=$>nFGK%)0WKZ$^YCM~eKs+_kW0!byj>#-I9-_${
zo{IyX3TOE5`WM3rNfDvWFGHU%4&*YO9q?7#Af~=MH&!wid`Yj8b?bx+JCl<Qc6E@2
zIv5@hg;`?1gsP)%2_;}XA<6c+b&+$qbpdL=WsM0uEiD-hEiU%;0Ar#4D4n-i7hgF3
zu*V)z_hGV&zuRvZ2bITL>nT-i`xdyN_?d|o+al}k8yXQ|5AUHRjn1tH^bCiT(r;3E
zGc)3k1z+~0%z*Yum&sBg+YGfnY~zbUFy_$^fl%jdF0xN6#~+(5q980p4+@)#2^p~P
z2#kHj{A!L#V}?2M`v+4@-Oxan$M1#uvK(51#27h5NFh_dpjgZFFQVkJ>6y^rscfPV
zc*PnJDCBy%W;IpWCDHIGZPct}vghq<M~K^hUi%x`+xugWOS^<YROc?2rcm1KEd2}`
z!R_#fwt$z-?q`+CrB$7&qQ@;KN`Re=4)r%Z_#E*yc=7ghRcf?--9XDbFkO2Cs>l|;
zv%fSyHPB<z6u$VkQi)VZ5Yk+&w^tS2G83g}bFVnEb4)QoN5Y51tr#(BN%BAW16gV5
zndd4t{xhk5`?x~+yu`E)8&fOXqRpR5${$9Yb7FB|a5>$dY*Km~5o60Yp=ZAbJ`wct
z$ZkK-?METy<{WAhhx*{5^d-ZiAt@1IP~hjNlzN5P)GOG=2#K~FfE%|Q^cl4}OVpne
zZzTRQHGKr4b6rP8H~g*@-|_L}bj!Tg%Q(PG@Fu@kJI@!1P9X&o1FyspgJ|LDH@6K2
z*4G9DsqnDNM)o#s|FWcrz=B?Fqq5`>Mn<~f%9MvDHNGvhUm)0(fy7fWbgn)rbgqm`
zbeRh9t!jAK7t<g9rPn{?%-4{S#rhI|5<e}NvpsDuP@kE3bZ>rmC^=9tkfR|RwVW3v
zG*Gb5w8y^-jeJSy@*i|pg!Byd_&fiRJ?k0q4$}4-ys+mu$FMLH<_7U`&e4YwTZ|b7
zm(W?Q6KT;_F$hpCQf4B$7Nu=E<5K6GeFJN*<^OO^fwrB>$97^|w^VhdyDiAoCiMfR
zi%t1}p<SYnQF~7XeWhKpO&o%t&=WSKvK4Qx7Se*C`L#JtNEAU<N3S4EN2(#LP^p(L
zv3^YU(6~?$Lg0Jvw7mpta^{8di(&WZFbSxYM+D@66Fj<|kx5;&ADg?sUVwkP>kp0c
z%pf!Djv^@WUXp-o66SzwznTD^-c*bl7!ldQ4(GOLB_<&;YE;rZKUVsk1%`37fRnHR
zSaC8z|2zSH0WP&;fm=`QX9j`TbrnRESSb-G@jwHAhw8lmsa!e5|4L9#XQUlgOm1Y&
zqb0_KMMR1fiZtD)fq`tVX~n~VPe+;({vp;02if<xUpj5>`nCT_L=dbvIf*~1AfrIb
z?~x3Se)aopZwlB^U+iRK5}}!2U<&MonMf14Z9#sB73+r*_y6wCV^9v;3_n9Tg;K-*
zP72otb@*EwLZyn27#RdRM5UJKXW*|yseX%&tVqFykBf*At4Ku+*#}iDM|1RXhYnh?
zZ!2`oxhdL+NkEJVl_W2$o^EGhU(No%rPOgyG22#DKHFwmHrsaa`%9}|Lb^VzgL*>=
zDK;?Z%K_ZiPlB#ap=Qn&fpk0bW-p|nN~H#ofdj^aeHs&!bRp~^I)Sd+)mV1bfy_#$
z<6|?c0)>cEzXn5M2vRs1FaKjUu+eMqmk1HVaein2FGfzm-HV%s%gJAZM7>d?xJ=L4
z?nJWH^8vG^uDP3=0urk25B!V*I%0Dxo&-+V6*s@L7B%M&G^n$w#>fs(_yP`(NKlwZ
zL-U-?Kt!KY^PP)#Z&P!-`@)8ZGip8dU!`#dN@|RDO+aJ$JynOpFnp9EgRsSAlmrh7
zaJ!otqGH(ii8;(=n{WwU<J-#V$3G*oH}$c&dNoETi(YMYqyl{hNTFsZzJ-$aUbO}~
z^4Bp}z$)M<7&Hl}=(vGtRtgx>O;hw<@tZp<ESaa<!<SZjnM*wwiJ`FuyYG1Kh8Sxc
ziht2`8Lzk6<q1@JkO|!HEziqEQkgEsq`}cTRw<Zb18K9cV&WmNBEyTQik0b8TiRG|
zWLnP;DM;{m096wgHZ03ikXPaQ?d%&`{yU9Lm73vlu;1~lFcod(KgrbZF%Q+3vJe|%
zBSqB23k}LFY~VH3`D~6Qo0bpN#CJ%_uZ5V)uk&ikdG@gzE}OUw$_&V25GAKM7hGd&
zct*DabYdT`s>RK1PASAK>7;gY;~cOQdtU<3cEAVXHXjD#swh%jkZ<1!YSw5N*H2>e
zLlcB}rzK=rW+Y^(SBC8?glPuG=jIIRhdxxEq``nq?&g!OASoiRFra{;D_r%HEFU4$
zzz(}s<cFrt0_nM!18a`YkVg#Xn-1;`6n_S4;>qxX-#?r@>t=FQ8bV<O+L1dSF-ExQ
zP-{s2sMl+5HDiiJAKD8(^`<nN2LUwQi!m~v3vQtn^$46+>a2|`AdF}ZG#E3IG^R9z
zF``oY+cb7`9|U6n&sq#jICuSpdG5NeX3hc_N9F3+UP-7$Env3;^It~q>tB5}H>SXv
zvxZx1aFkuPAZleDiNV=lPmlw+zlGZ2xPBiL@LYQg)YQ_4EFCj0-KQV}Y0BcY@z3Jb
z3eTc2>h(l_!_2<`slzzdAO?vhUejtIwlwMujYq7K%pEXLiKcassosH#7EESOKP+TV
zIyJ#r`kpm&6=CFUe-a@Er5!jtjVJu28(vi3lt|p9<6=u>3Mb~nMy%a{ygGx3LVnDw
z<}{CoSzDYAzk&jkjd=S3lz4j=rnu}>AlYgX+6l6hc;9cHDvSE>@Ft~P4llFrLPW>^
zpC<W%FG)6fsXP~~O3Z}>8RQadL)Ih{=(*cMTyrXs%tQM|6-VKKD4XR1;)>Nw5NAG*
ztK$p};}h79+McY5#1W#g<Z>t*t=WYMl2u~i1+i-C=(M2smr^uKM$LsMlN04uA_T0B
zi72Zt1_#(m{ukp##8Otlp@y(2uKP$fxdk|KGmbPUptSm@7QN8iI#dR0k}m%#pM;5F
z?y)8`GBLtMGX!9$Jd&0n*kdWPHp`d9GDKnOL4P&Dkx9PNU>gj0Eti6;@~^M`NKxkE
zp5Z@b_*o_j%X#lQnSU>Bd6><@TzlKSEjM4kL==ut8PlkN`qUz<<R`~S?lGm;8m*sj
zlSZ|63N-i>Ynk{Jo_hWiyrz#0k+xt|Fk*dv&<!q{wukTMqv1_v$KC9umTz6~$46Si
z^X*cCs#%13oX6gp<LZvGmR^3A<q6DDgf^UCgES}9KXD?e+9n_FhGT-Une5y2a;`){
zKG0=Y<8Pm+lbP`H6Uy%5@?I&8^Vd3_dgIL3|72C@R71Wtno5!TAg0afUQmI{qPc+3
zq_3UPTAGa3_*-3-?$||7Vv;QUFF|leN`GmL#^g!0Cg|&=qM?bvZ%WwTlyzPFSB{oJ
znzJ_z`8HrRC(aaT!e8g39dhc%J_%F^M0k$mvOuF#8Hn%8P{XJ#w;Tk{>}8HK+`XOU
zefQ2U53}O5+`Tw%V!zTQ>8fALP(sx<al8OZpK0MpJGX#b{a#z!P>3s7fiF<apn(F}
z2m8fp6X~j2ZR5ta3p?csHaEX@q<3lAVe6y0{la&yg9s)2W)2Pepj}upYjG%7yUXCR
zmvAVRv0s!pk_#4sRB$FA6hgE0nRy|Ia<ia)WJQCxcg&FX?c@78G3sU{;9q?$zN086
zZ4Pg86wruHGk7+s`H!wEbaZu$1P;wm!|a(g-Q({1HC3W3C%qg2bH0`iOdkLXijd4g
zPG8de^m?c`g$=K0Xf=vCA4crxoLG<ao0{uA?u^%cJY~V$r=Phjdg|2KPn(dpd$Fq3
z30nVY*~?MhF-hQ##`|_=$yoAC;u6Pe2F|z?_>gDwy_?{TV$KiN>tTs+Sd^0rf>Arr
z#aUZ82fOD~Rv$YkM29<Gc`diJgvgUxH=rDQ(D{18)%mF+b+cnB%C>}2x|8ZvE-bsv
zrd<WEwB&=;TbeLmK};szu6?RVu0facE0HUg{r7YX%h+l?$^|$1dbEtweb6OShh)^(
zPp-33#%<PFL3S^ieCg)H@_m;LTA|ipEH1TL5<yq?%_t|EHiq)$9tardwSL^`fe*>x
zFMB`Gwiv`aC!R(FP52V{&`=JiX4TI>dJ>6c;;pG^6C5YJ4!vEDU5%LZX>~mJt)zYC
z@?Gg|g$_fVb;@+`8@yDa3SMFievs6*&c^B6;+!=PYc)iTDwQtU>AUDld5V|YHEqu&
zniD0m5xEn(QpV1jp_&4Yej*_SQc)EW0y+*D#qxE6yxs+Q#0UDgx*UuTspsazrpuO>
z<<g_Ced6q-(GvF%2fPXgl4NZ!r0O@>&Yi}GH@(_+;lY*u0|c%yY1|@cWxAf8V#^P?
zpTr7Bh>l`sA!fjNu)H_nG?{yV!|7ac;le62cdh|bPZyCpRjKhqZT2hpK7Lp0iLv9;
z#md83@7(3xmi>xDZPAF+zzjj?H#?o1=NQ!OEP_W~FK+0Hku0V=!*KHmFK8Cy0p*|h
z^@ge*Ax0?p6bDJmt}=|_M!n67<&u^yBBuyN7e)}T_#Zt<er^feh`*_PQg45_x_xlO
zZR#*l1*V$y^nbb>26J6|)a%d|9sAbDeq3ZR|J9<F*HjvkZh5vMr5kdj+-z>5qTgLE
z+4zO5%)wZTAiN>R5hH`#T`r~Wl}yNDRF^N=QuLUKE%jp4jt<n7+dX%?Y7(s*(W^W>
zA{8s{<f8!elV@ii=@Z+5;*v9-6hRNii(CTTT7wb{f#(b@8oqX)ct>&8%3UE^qB{OF
zf9u@oji-85!LGu{E3>1#!G0mRu)Tx3-OWH&`lrCsIUX(dvwP?3!fut6ObC8tk9tpa
zcH0RAa*Eq6Bn4yFt?sGum%(3U;gfL-NXu>?xGkp45wv$97?-Pd!OtnTtov&!6)>Ro
zo1jHMf;i<Ss(d(=fMV;hrHD0$3d#`E;CDEqGJ{Y$&G<0A<;a|`l7@SGU4npgMlLcJ
z^L<UZWN&{d6CaNe=cx?dVSX=?=EeKxscXqgf#F2ChE(|qP0G}@`(BS(JFbb@zDZ9l
zz6Q)X$AK=-)RQj(qk|+B_E*N!VH8hF>Nvl~grMpJlHuAZE|_*TU@5=N7WDy`xvo!T
zeq1*D0&<@ol^2LNCbeODZVsij^+F<N`w|ZX2NGCw&g{WpZg6D@b7we86BJ(hFoq7P
z5fp2ZIMhNAwkmF+9g#4oX2siL!mXy&L=%oEU*%*}&E&|qB|%3|=$J-4vKBq0Ox5jv
zoTZ?HTAoh`#6&*$dH0ENiy-94Q6z7QP%fu!ypf+EW84h`FT(t8OQl=dmvEpCm~_Sv
zLUoiOu3n7KJ8HV!t$D=p2M?=s!FLCFJ_Zz(Q>s>jaSR-Wqm&bM@^Mn^Y&s8KRdH**
zK)D$Wwr(1gL^eibtrqro=3!ZR<X4Bgr-`B$j_VC_L&(=5*{fbW0T-T7ZS~$)&XA{$
z6c_S6B3d-O3GH{|+}v1gxTtsyI(e=BI?Y*lc$j!hyStQN;nrg*9@0oxr$Zdev$*h1
z@$=xnIt&cTLsE55Yk)i-|Fv=zP8o{UyCgLG7$Fv0Rd=r?FLH4Vo8dCMPeoR4RR!ga
z7JzCm;xVkntu(vtlpoVaTiK9#D9Au3?C5J+lkNYA;28f+w(Xe08X<K#gq*4Rq*201
zoR!1oat9~JJ>;8A$m5`$I@D|{Oz33)3K<#<7yk}771kK!fDf&~rVN$SC-c{8`dJ~q
z5pipnM_B^-2bG_%%NB(|&aH-w8s{i)rPpK5JC^<1RxnyGaYT9jcCBNgNp!g3*QtiK
zk{I_KOA+Vj_8$p0GYZql6tTDFy&BPx`ieg*-_H0`4Db7(ASO>O86iesmJ@Vt2troz
zeEeb67U(caDS!x6S3+07zwXAU@%EB_NfUHv7bSx<;$8hrT>;t;Bjp>}xgS4;lpFbV
zV0~bLL@qI|w2hm7cxoIrTU49K^D|;NF;_OcqFr4VX32d0Q_yqyAS-5;Pd<Dv+a-3q
zwfJ14>oAElnS|l>MF`=-IFGdCUE=48az{oWB>F8fWFxoyZ(9jp)`QYfVQI?Vbd)A(
zlKSINaKtMx#zUGYNwbw}Fd#t0loQcmsY2Yw>|b`UjZQB)p&DXej?iQC7CuKS9qFo1
zFrVJLsHh`;`6%`E_U2hE!Nm<BPb=}6#KLGI=+>{#Oa8-z_mACeswt#xtPI<!hKQLZ
zT~S#ua?9rgmYlG?iW%OW)b_(49Ff)xkrbHVs-G5++&Gb#1sTI@o1=;BU(|U$Zhv-1
zw~)xSgr?CpYms?C%{$Cc=etWQSi&W;JtR`7uaiKzSxiQJu}5w>S7Lk=e;}j7zh=Rh
zrPmG7q5;b;0$Yj82|dAXAsx|TTG+4Plf14EPE1GRfwj6)EkStWjhlm?lleM$f+3m0
zA%uaF&4w6!uVWhNS54{esg&azr|zoJJJ5jg8Qdg@buMRxGh>TV4QUoEo6u{%XFS>o
zN)FxY_E0B(qc(lxFixBVk3yrm8dZ-M8c7%=Gqjc^PdG>gE_{Q$&`==8J1fx7phrg7
z*8q3|4x|svi|Q36E^=a0mUi~W$_=eY2Hf2MIH+1)6^@U26h$0TEBKdCVfL-Cf-Q7?
zWgMy4AO}j%G$PQvo4(AqQxd|WW&8Z)`{kiqyp&c?@#s!WQHjo+(zca+lNh~vSyh;v
zUgt}U7@&h85>b&;*(}G?4#J0YbNGHiAZSppmL`Z@>DWHYqdP{deOnxkOyx%0Y>EOL
zH62pH=?1O!q3G<DYAS_x8Xe(gqv7WYVDDRz5lG?mkt#Bz&Loq@*3i?u9uBkWD~U%-
zA7S$D0;4+jehrE(cyt)hs}gnez8&4A&m6}G8sxHb&j!8OYq8eiT|y(U3t2uJ=8p~@
zXrwGmZcZ4g9#tKAKSK%>ho#s_1x}O98&84*fL9jAA_=Xff2a!Ys;Ihmiu;*qnMCJy
ztF(0Y?(Y+6%5A;*EJsdry-Xp#D!DmDn<Cn$e##TSWhh+iP1Zv+bNw_rbn~lVzBgSB
z(M_YBTcRY0Egyf)-!*yWa8tIx38VP>j5ub^BX6oTiq!QkRshijq`m*<<4{p*a)E)U
z+#Bef+yUY1Fh~WO^YUDVrqgm0y7$6^=sgTiV7%F(`3%cYiuj(eWCOUo0j+AR{b416
zwnbI<k3fagmsszJeA(&w4zU{l3c7Ln%nld_qKUrkZFioh6fO4-4Z?x$E!MD@o#f%@
zwjB;hx*bxXUi(DxOX2~l3>5JsAvki9Yd$07qqxxRV(XM-<_;lWI*2&EtU~SchfEva
zEmRC&!hU&yy(Y0Q3F9-W8B#1x);f?*`?`>bgNh*>er<yW>U!d_Dbzt>>D{|W!vRW3
z?kpP7;WpT?123k0+6IwHyQ`mTL}S7CEt-GK5DvtLvD-uiZmqZN{jiZziy?!@Jf{`+
z<dc}2%%$HA(luCoh*Rc8C*?6QlQ2;KLfsb5vtr~bS-MVKP96ffQ}<@?IS!T(|Aj+1
z`TRn!YMenr{dw_8d_mHTJcjZz9ffF;IpL1dVCWd1>f}J>MG>kIOO5ER_m{6)Jw`#w
zXEi8v#g9Q^CHUS4OtN2VW-00~b<fwM&a36xgdYY^ky0Y0T3?rrAX`)?W>0ZER1fgy
z=J`M6L-flkg`jAl+g&%lUe`y<xQrRa8qO^qReV9ulF!P-x463|x^z^Cv@d?uiR+6s
zs%g`AYdMRdwJ)p<y}dZ;-8oy|pBOoQBjGbncc#Sv9z(uF9=%=<Dt?*I$2?PV9Vk8C
zR<1Rv+zdWC&QEc>tCR5P%8@>GB&;j(`<#7q%9_9q=`Ts94$@P8P4_`7rzX&!CMmil
zRh$6GO0N>@4*A1*dMpd@4@s0=9{#O49c;oiR8i7^A0q~EAx<HN<3Ja$A4oGmw>~oc
zu!CyTH>0Oy&@*HJBi)dSLIVcTiTxtPL8yn<%J`wHSGiEqv;j!S0z`%jQpmz!+yx?7
zEzI_ZjyDo0)*e+z7DFLsAShqS4G*D#yr>LxlLiFwu%pqCE-;a*VwQLG=_HwCHqmi2
zFUQ~<E*+(jWw|;GlzQ4%O2ZXaBN>0NK)5fHO@Yr+ieeIxamkYunEFRWyoK~cL|<uY
z#MHsyID50DLPQ`6l2~hYz!W~FP15Hug6&*lC&tbcMT32)g_bl(FZh+L--PA37vGK9
zTFERp<=|*c`TDbow-~`lT+wBW6#h%jWD~ksTp7@S#WZ9;Tp8lg8l-WxSOnH6hz~aN
zz!FHRMR0uoWb&7o!sujhZ6h^wT;y8lW=<Ny2gf7&P)-P>!X`gQivWLjX(Ikoo&Xsv
zf92xr2*?P|fy#|+csP~=6RGYH$oMZK(xx&D9Hx}86*!Y}a0Z~*!_&tQEU0&0pc?&m
zliBv8;t=rI5_xmpfyfOk*<o<@HV89Up8`~8D!XXEW5F}W0I`^w_V-0{+o`?QX}>1O
zLku+~BQXwzVJb*#4goQlRQt{!3WoJdKTi4rrFpVJR*Mw_!%NGiT{B;TRTkK{zo2|J
zm5T`zCm42@1jW|a`A$I}Z_%aZsmg!66xJ53fZgj`fFxZErr)1&*)E#TvC)R8DZe5I
z8(#1Y8wJx91{K>;C@0)wwwQAWIv7nAXSQZzgA`1r=zt~g8Y~m#^X#{Z1L#6<(xV%>
zIM@gcF<Sj5B58BI_G%^9&nl=Yv)`JAP7Gjtmdh*4WmCMX;Yxex8dIin;PRF;nPut*
zAiu~>uR6c66WM=W+*5|oXP*u59}^caY}bl<2J*Mu&s1zt5(nyGJ5-IK$35w<*aWI-
zZ)ujtn)y9-<#p`wsx8!Kc9Mu3y(BswhCa=)7jXSmRh^&8Kn3NV`%OV7u@|0Byw!7$
z*tHgkLAQTArd5IngiIdc1Q~Wv)(KJ)`c(1==&@Q&2Nfw_=f$lpiY&=M=h~~_gr{8u
z&E;@=58_la!s+rXDh2B$zF5ZisVhz|QgRcKulZM3kuGW^LI|fp-k>R#UIWLhn7UYs
z07nPiU{D6PnLx)|YEoZQ-<I*veLi4qH!a2g(88FN|53X~u(1TZ5Eb_GL4NX}uc(Dg
z-zUQBn{i+pa+uzaiZK0G%Oa55t^t}fznlKw5Ht<oDA!ay2HY>dr?0||TOssXnn4=M
z1>Gcc6adk>5;CCf6j^p)g=S(|M!EtodoANN&hjKX3a({;`3Ng{knRgr-5#M{sjvV9
z^Vz-7Znz1ggTnV!so7FQ;RBChCl?yKCglRt7KbNkO)0Hz0-_ULkAw3Q6?F$<Y*q;&
zr-^N|&SZKP?&x)cWe2ZHt$RPdWXBbiY=YH5+~JCB<R0}_B<e%tfH*~&SGngYNgbEK
z3nt{uTdpWG9nI+?2P!Xz$p~5I5y?vHxM#;4<r!()#s%xQ?_l73FyupOOh&QDs>~}J
zVVzd(kk6-#aJ)I6m7&7?g4?5iq*Wz-i?P`)tqd?Rhhc8fXD9D=oX)W5;n#K+&4ES8
zIbQ#T7_L%txu_`Ch_7`*l8Ym|9$K4O7>j5!T&=X)z!jslQod1n5>8*xu-%x+UE$R)
zsK{)P$7eWnZ>r+?i+Q)=8$0Wn&~wMt&b4Eu4d1eC5*LFRZkEn%NM;{qKdp2^(tcB|
zR80w`VM&Ln;dtway<WmO<*;?dt4aV%2`=4=S7-b>^&ETct??C==E@nyLqQuhbjGcM
zOd3}5b1O<CwL@8&tQVRIN+domiz7q<k|Xi=T2z84h0tjh#}VI3oKwW>_QK4)Zw;V5
zVMz~aL&bR<8Lv&mib>B0<8#NQKN~M$)#<24daU<!TRj^;9u#LfRt26nM4YNua*dZv
z;93EThkr|wA;TfgUsTY9KDF$%Ln0kkPKG2H)xCOfwhC^@5fPSlNT0M3Y^x>Zj77OL
zX0PjUvB7I(H)zKf;Vg8m-ZC(jXjCTB7Y*>gfvH|<S6&uOkLgXT5mrMq7o1wk=sZ85
zD{Zl-_D3|b+I&^AZ%`dRw;pJ%!8m`Mf*FOLC=XHqK5PGI;b9wz&>>K_vWHOLJgUO9
zy{qP$wD_%gv%cNr<g!~qVIn6V?ilVxIgm)8NH#OWQ3FqLheMTA)>f)QoQv<5>EX>|
zZwYTi#tIR2377<WR{W03u-tk0mo^GyH?O#R>5m5-B8wGd6#crh6?R214&>C<dXL{3
zr29<~MZbA-ZAu%T-HV9kG22#OCYhuR>xvgPOxLo1jK`42k}7)c|JZZ|U0Dt47<Yj@
zaNb`%KC8A{-p1E+RoZ?u=B(Q}8{##U&gzYDhZ{-t?bNeLOX5xAh4XtA-h4}jbD`Nx
zBO`+KkX5g1ynM9Z=;<N+{E=zu`ggsjhpTgiEloyQqK8_mq^~0bsU4iA%&WL{E*KRr
zY$i>gnj9RGeyN0W2O(Ct!bQ}BllMvo-I59#2EhfL&<<o_VjZKYJ!r^tMqX;1SDvmE
zMs!iL=(lp;C`@m5rxKM|39BE9o+2NgQ>1=Kl{uTlkDiO&HeWf7lYeys`VvYK`^q@1
zoxb@=+`i{)Q|27$;2H<giTd4S5x#W>hrT-b_TY(pnJ3obra1GDR?lmr(_O7o5|xjT
zW?7N5pMo7cJa3=K%L#m+Ud2nt?$)TxRzmm-1#dPEy6|fSSzj7eeOlsFQYW7LQqM>5
zk>@-!XAad~K-JQ?K|%Gj%TGYNT9zU2J!;vU@H`63xNn;|@hqDlEf<!1X5>+>2|9h8
z%%fpeK%AG$<Fu`P8Bhajy};s`nsG;kr9VSjO|7QKE5IpGPH!z#67-U_%KtJ{m5#gW
z*ypr%BmAZ9bxfmbtZon$Rm}&jl6@?M4+B#|TwJr*K`LCfy{9rLq{JztH7RA!z{9^`
zjlpNvTm2jwC=_MTm8L;yOam-oR2JR6sA?IOq-yd|pSH6JnXIHVikvSYtS`N?t%OR}
z|D63%TUHa)oYLmlr%eOiV;7SlIn3qwaep1y3nU)u5%UcZX+2;uO<(mZw-L_+X`At#
zXdSq!#<L4!=#kS$UN+V*WRyGpDm|tHJ=@7>M+$Pmd-<P85+tArtQIHr(mDz<l~jK_
zU4eVC)_9DBQOED?s_(KQIo)TToQ*BSwc)r$e;6kbsD)LmUCSG-DrN(QX=t_lsA>&c
zM?N#!L(&Bwkj;VYhE5`SGV#WxgdAYJ6B998xjHy-V5Qw}{d_R3S}_NF2k*Q*_OCkv
zjt>J9p1I!eL{a%^pQI<qrB~WXpSDQS7%2ylV~k?2XDZ27^gzW4cXrN`bl|3+%SKF%
zN#UoW!b*2{6J9L#uC7nE7Iuz~qs(TH8Lvp=2F?3V#eT)pP8<wJ`W3N1m-%P^cvb(z
z+WvVuH{!@zTT5McwQzl)@$HlQnCB~AK*%(U66{C<uIH6kb0u8g;aC#Kn<vwQvY3`>
zf)JKu-BA!9hE!%&6y%ikRO{6#Q8TK0@XuGe=FM1~4)kYy<;Y>`umTHJx9yUMnO9v|
zipDH@*|YE2MRm^11@OXm%{7jVQg2PrXN!#wHowTQ8Hkjag6Bx2eXCs^)-i+RtMu5K
zjBnfgIhwyExH~z*xqHz6N}@GJJ?){AJRh-L-og|DjjE>SuXAD!;!a%xK5_NalejE9
z@u6+Z_4?UKXRmn|THt>lTle&#d#Vy5-9tkTI4+hv<wLl!8ZQkm*;rigp;=~39Zlwn
zgnZkuy*niME;G9QojXss91vG8Nbn^mLU!^Dp|`o+<hFnzbW=W@q?|(!oTOgp7j!8-
z=3iph=GcM^lv#a!HQWQldFemE!n!EtO2CAoQCxozL!rk3kres+Ahlt53pcToD$okh
z!6JhC%c(~&4lp~f8g;=<V~wi?hSwysBz7-F!1UR)V8@}*6{<m5cV42xZb~mI84&%9
z{#_D$kp16pbx0O)`Ykc!_ILfb5sed&!&nAkr%gpw;nSxoxsU2rh?i+hb?_!;_s=h)
z5mMy1DF;jJIkeW}$m7o$QsV(<pq$Ef-T>iI^x&o~>sR1VW<;azR}>4J$A|>sQ^X6H
z1G9p){w3`U^1UdN@hfYTy`&nP^&Y8Iu#8?;yfca*rP@he2yl9ZG~7n&xA}0p?c0tL
z6CO>do!c4pUKsKeC*WRoXnasUq16qcGk+F_X#RVMKx4aQ9~nkp3cRkW2LW$JxGV`{
zd-#4zZP5GaJrB@wyI%sj&sb!sIpJNeL(Aw9;U36(kwW6zB_fAYsl7P7zdJs&;0W|N
zpty+PPC2^X`*h2=scIM;-a(%=a6daPZvo*$n%M%uSHmNujdFEW>!lh&a(E}2g@Kx)
zG;r7rIbh5;2VtEHx$$h?6yKS*GtL4>A{<mtk1W_c<^J@E*YdeZzOyJFN3n5>*Y*ty
zDd$L6Tmp7mwRh-3xWv^eD6%*C_&We`g2-$s<d*V;FwxNu)H2EiK`*$XZwlCLR5(9W
z#^)4$0hf-pe$cQRg#$9Gc>_Iv!EJ77&Y<KoBFX|`zI5;`VY`aaFn9tt5VCzX;tbeS
z9pNnRE=2H{BSs5^dBLrQRfRs4KL4=XYHSEDT+O$WM?4_LMD<058HjGgdGo!k+q$pO
z)6HSZbn;Wto>vypau5wJ>Tya=sp&otR&h#Zc3<fy@6N2#gEHkp$u3%l0}HTDaQj1r
zem4lMG?UJ%NxxKS{tDOhBfEepXUoeWMP#O?MDEsef_~&ztfew*9&PnjFh$!q9Kg;W
zcky+w_uZTG6`{ifl4v@$?RKTKXvSPM!*G&?b)h4)Sb}U8(tz6BvsKQfT9QgpC}d#L
zOPpH{x5mIQv1d<$u{6=&&X+OSf`4hz@Cz_YX=HHIui}i0)~wNF81zU`>4}1Nc|vYz
zW?Ebh2OB@(w}%|RL9<(Non&!d2t@>Cw#XDG=2k@6XwOY8V9byprHxQ^N;n(g;#Wk_
zCFfvPOD*xTs4z^hWA2?UL%b0*4D9_l7o_#Q!7Tdgtj*U6JggC(RsBVvq+(-gY**TO
zE9mwho0d;@(MR`nF0@_D#rKhVweEE^d$8&1xze&QX(+i~4Y?lCZW7%?k$9-An^dAp
zgWV#g<*C|ZWjzFlXtzi8N*Hj=OwX#DVAjSw5Gi>284hYPVZyxgv?*~O@aO%sxfqwZ
zNySa{KR-?FU$#MtH*mBXFWZripL<QZWS!|sE_yT{*DnuEiaIj;(>YnFmoT8*8d@e&
z)#~wSQd6EBnn;8uNk&fhU<8M$couN9!yMO61j&;gZgw#_g)SKExpl0obRQB`E>NE;
zT&K-o#CGU5U(6jppq_2>NQ*B_gvp8=OP$k4#R-h^qUbRX{92*-`Eb8}0Mwi|q!oqa
zeg)B8idu0_cF#H0ixmQX2*Iy6m!20gjJQVkHgnuLZnF?JKG0tE`>nuJM8Z|s&zyd%
zUZX7sjOEL%ym@?1JBM5n_d{v^l{5ApO}~uSNP>So0v!)PuRCTuQXYOf5L(+;Rhf^w
zC+uG+z2yVDs+hSu2G(wVl6aKgdb0ko-ofvK)M<CYu%&uO#;fK2bpJ3A;<bl6B@eU-
z3{?3LA?iaq_12_W_akB+^a<-<Z@_BWuW%p-e0_^4Y9%m?G9j_<OABGH9dE0mgo)Kt
z%oFhamaf~mA&hJ`k~mu!AtNoVY)%~TjKKeWiqJ;mHR(9)IOwZ=%<B5Y1Ua9{f~qch
z$3FOyBJLwOd>vLHwbCPhekKNaHMB$e!&Q?#@2|JrEE|W$PB<n$#i^eQ)z-0YXiq8P
z%2mthN1KZC7g5|x_0<E;YZ&#BzH+OJajx5t8D=wFjPBECHW?-Lp(dXA6H2K8;w7{>
zZK0Pt{(;=PP5iY(Ozj-Ii}F{CX7T=a6u2*sV_ci0xyn}0j(R16GOb9ty-tlQZVxGy
zs>ek;tN0N|k0u0uCyG|Qkb5o9=fr8_t-4uU>vX)1XV00R${OV^)B|cUSYJ!;`P}?f
zy^QIn7nsqK)>ZCDN%$NKLl0E5%yLy?-B+L_kzTVqJgaf!VAa6&Q(3^Y9-d^j9Oqqd
zQ+XK7*@_o4CRSu&syyzWgbiIYJ&2Ro&8urLRJ<4|vu-zqk;!cD>}up)-!>bstiAYj
z%B^0npM>L&$c`<tEhirtlTp3av{k&^a{0~Y-X6%5q9o@UY|rT?h7m)*eWHE6*Ic_3
zZCGGlv&1;Kp!>;lY)N-;V{$aWh4v$@u-<&Tb53>!X`5kk=y-}e`Dp9vDu=#HM%Cb?
z=uyjGo9BFd>7{>$4t!#spB9pxrrDU@t=ZlgZ+XN*J-h?&Oz1$KK{*EZ6ErC2<DFd(
ziSUFWpL%N{;<1TN*p{j}t8y`B2c|wU@U!X4Ju@EtkNaK1!hM71?+=ATi1Hm`zRXs2
zonoLY;6f5j;6JQ=#It^Y3At8;>rn9n3sXoDGXjs9l_z^EeGyUemfBnS@T({{CE45j
zo3#QXFd~16Ukbu1Y!M%9xcChVyMz=!7K|l6zBo<vL5MWCJaG)tx!V|d;b(H(xva7J
znrg9~n~9DDJVx*pr!fPVX+j-Jd2sbSL3MC)T~Rw2jq~;l>Vt3JNaC_mD11Z~#h~Ii
zXvV203D}W`i!k%dev#7V@HChC4}6AQhe}bcw}dW+@h4N-&MWd4PTl#c4$VYAu8C{}
zab$ul)fAslg`j{oA`v~Ls)1}Y9gyhHgP^dfe`H&nuemAC!j;%uDt;wrl}D>6x)h%u
zPslA2kL<vMp=N9@9*svL0bT7HZ3Vu>_&uJGIoCq`12##U>(bO3s2BdqWYvcmxrr}K
z?ZIDIrRqoZmS*KF*f5-zZlwH%6gS<7San>>e^SBj*?H8aPJaTErz_0yL>1Bjwq}Vp
zxh@pPht0ED-Ln&lH*zWYA!M--WMWQ7{ykMi*fn38ocy~xKD%L(JyQD~bIcEs0pw40
z#Ri#BAC(>5#vJX_)JoNebB;PkNlCGD*Rh4XLgp!NYoXeSEYG&lEF#7t*X*7b{U@cQ
zL|GxV%X3||>?;fx-4%;QnNo(zuC4tSt(8l94Pas`NfXsuSKy1j7%uvoq>ef^prX`h
zn#B+M2A!I@R>ewmij1Y$E$PM{W+0o!>X^tfrH<A~Pp@{09NsKz7kb+Dxyr4t@HDaY
zr{xb{%d)ynRj&^GeC=mNqqi_gE#P;qgiB*834^bT$x-|62lqpP{nl6QsGo=$y*}JW
z>vHcywB)zq9IX<5_?_7GAn!;+S8_z(L!1pc1{Yxhuo-O|%47>~&~Arw9H@eowIaQr
z7Z9;NWEjzKizlC%HmY)Cu|^#Uu`lL)On)d0cz?^du*E#&SX4s9gVn4WD<0>J)}Gj9
zf@U*X^jq>)jmmk1TOu3i`j+Ww@4Wq)%_t0XDVhX<_SP?DlLH1XW<Bz%3(tue{SF86
zrwfINZMu)ms6{_ep|!M;_e`S&bJw98FxJMkwzm*RTrO;$pD|rD!ef)#fe|bQY{tpj
zRyMa+%FxczR`$%P2Cl;+ojXFym1>LBD=j|PTxuVG;d#@3HaEd)N}C$4LkoPEpNx~9
z?POM-0p39?$YJ(ws2?5rK7TG6q&Dri-z_zQYyB6=XgcO$??gI;mM8hZp+WGik&yH*
z`vD`O?Jm$WMg$%`-0kkTPlmY8KKhwMR1jP8ahSoPFZzV|^?~viS``e@h&Vl;J)2h<
zN<H@l{j*9^5I}R?Z?t_8-8Mh-TKIuJL`i;G(nsA%S=rAT^BEulVp{hBVdGv}HPNx?
z=PLo?ogfGTd0^{G_ssUSBmGdVXn|%i0J1*>l{FPp;ytwuC9zS(?u%R^Z+6Gi6yIf5
z0mfQ&Pt6Zcn<ya%8kUAU+hvfKXRdc6ryv}jC2AJZ9(O`6QxfU)%NjYqt<W)!`cPXt
z?ON9r+#`)6`QWF2_pJ6VLvjmr6oSZ08iUIfO2^rd(K)3Qd8?=`(;Od6+)x}U7uIcb
zkLhCt1*Y`6QdsWLQ-&VP>W|ReAvP6EY2C-5DF?)l;RUUxho(P8VQWW{W1*`Lk53tJ
zeqHofbPY+GFgv^Gb8PJeY<@B4i2AY-oRSQF=84Q?p1hvEkAQ1s{Clz{Muiq)9ZCwZ
z3Ir>RlXav8;!+4RTE4^0<lM!=Idsjz&*Wt3e#wc`-lcW$5$6o5#VxRwAr%ZtKV@i#
zVhN*68J^nyOudZi(EO@1DP7`UfmdSoxv*A=)%!wC8<ei?N^U}7#T$}-@>DI9rpvjk
z4J4etu>gv;CY{wz6Ky~Cz6N^dmt7RT%DOMO>|IyQ#^D|%I?pN|_;%P!j!(|nOwh%m
zEPL-g(-2u2zkb`x4B||eV?(dfHrSq@vWy<D+P;5?Y=uM54~hk@%}rR^R^~bG-&pp-
zJje4JPeAla+<N*7Rd_cyXS5G_+<iu)ieI4-vvhz1f@CXwdV0NL!@PFuO6?9tF2J{C
zSx=?<`rpj?Y34)Zo`H`yx}Hl8S34c_OMdkBVvO>2ne*_tcfTU4?EI#~Yq4-IeugX?
z`IpHnw2{8yB7^?Q^1kml$&ok0fwF%=5zlO!>y>Fv#1}k!E=CX7)Pocs_;bL&zD1DI
z0q;<Y^MD9Ve=d*^uL7!5L8jGXM>>Lm8I;mXM+CP7wnHS+sDeTFPAvNlyFsl1PE+&|
zM_7P#7UGIjxlfIffnt|>6`aO9%xM#5@>07Bq{$nj42W*?Un=J*w5o)Qtr#G*OJA~$
z{5CykXGZ!Kuns#N9&FEmZ(S0u-PlLATv22qN3T~et{_x6y0*+(pgL=C^IdWqaPx9)
zBh*sFYzo->6QqVItZG6u0gjp6aG7^9A-jDT#H90>8my4UC8J~+^ek{Xv~|!z(ETvp
zRZx-G-VR9V%0T*Pw2r^OMaXEd28V|-sm;gOla+iw!sXBNlM(@!v=mVTmvj_S6DF~d
zfHR_377I5@uctnw7IB-#@#!v8w-<b=B5|dy@$<O89Eyg@DkBp*Wa@ufTZ6eqT{9?f
zz%y}M7Bp}SYOkQy9^zI~Aq#VvST1ppk3TADT=MgZfzO>f9WZ+pHMyNB(I^yGqc_$`
zyYk^nMkTu?zX5l@KYd<Vk5Vm7<9qQm&6?0@(#Y~aP{{Q=xO~EJTvA?NZ<3MBKwaDf
zKAH5qWNlWxi1>Z^m#Sr*wjJQ>$w-frXfh$9k1WjQ>9V>$W5imm3q~$Ja+Q%#_>@ZR
z=)%^hi{4IMUTJ>uWO+_^fBs_gYl>jepBLH<k^1B%zsLT(*30GL7F?Up-Sx?!<uvT@
z$+HZ9J^v-j)U$MckAHywNf><MF?p2!z7l_~7R5(3GJK8Kj;HY>Z++A;O;D+y!4vzf
zF1yCu9HRUA4Zi2_R&V*!xxviA(rvkbhn}4U$~m7_*6jGxgl*aF9z2)yw<|H<t^UoY
zv*ZQ!eOpsIZs!Sd<%MJSHBW_~yH_3S^g7S3nGw|^Y33PquLgRdI$UjH-$~DOZi&$d
zjwBn^HwdOL2J&X#1O^XSiE>Q@WDq>#7D>}KoC;2LhxMH9HF)m_>JGaI&?p-5Hs?k-
zR4&yPs0VPGUlxsbgW~a5yFZ<WX^8R{t!+}sop5{`eaOTRBp2`Gd0VF%+y^%g8Px=_
z*Gx(DdBApTQkq&Wkl=Q%JfTm~_23uqa%M(N5FE|e*UfbE@QV9!PZ7d{AQ#ZGMZa_=
zXP~+KbJriIsZa(xVTH)n32j=-<}Pipc!$pCXM;5dg*C<E_>ksEAnauhC#|yJfgarA
zPGMxv8^S*6<@rFn)8x9`8}x<eg73J12k0U7FiMP?xAo`MzHbNzL;4w@u69C&0=i4v
z5?#08{m~F>eZQ*Rk`7FP%s?{Wh$?~C-99YYzCrhj)uLs<lYT5J%>fH!D;?$vu+l0x
zM_g512@|>z;@a6fn?4DrFynSNUx9byS^YJvUNF<sGUDi5MPb6tvlw@Uhq-d=+R2A5
zRi~jBqEt#oc>RXR=K1Mz7IE=+YjrGMUe=ERHDH_XJ8GaCDw89*V0xI9thDN|5nSkL
z0GwBQcn+~VI?CSd^v|`lbbG7mN+Ygs_87SJaM$WNAJan`$kouG1*j52;})cV*h^hc
zd|?~-qZ5sx{lY=+V)i`dZ|?2-Q0N2;qCIOXd8o~_WTihK$x4a-V8n~SMHB9}dERSv
znnB|aP8<*S&Lh%_?i8_~J#vj)xaP%9Zv2s#7NN(n565S#(uxCPz<@upP0%)$zi3CW
zVxZZ&9S?GA8nsqmg#bQXfXkFJ8XAB1(OM3OvyD2+CWZg}vXduydkJ%bUdv9_j?d_N
zgV%~z75HJOG;spMjj7CvsZ55c?A*v5imj0f%_%8p&$vMxLRl4|Byw$n4pP1*l`=zr
z5#4Pb!>tfjle<yxlS?N0D#gT%^bqHc`3r%lB%8d7YE1^AK*IM7aDJ*0rec40NcPw1
zg-xVGFz4ky<(1fF2Dpq@c>x0yd}wKtUbsU$Gss(ELtp(`AC7uF%BP!pw1Wms!q40@
z7&aD%xQA+qdZ-jD{NLToJ1nGc$IIAlbh;Fud~K)#q#O=_Lr$h??&+rH9d68y+N&lw
z$q+v;x_(qBsT&PN!`s%KRdne%`B52`$EV?Q%;cBkn@BrDu))@kWG%vtC;|_{unHA>
z4L7PZ)-5pQ==R7^892T*hnc95SEXN!TCQgnn^DWc&Iqw*N^GZ-9M8G(LnTEcqwR??
z{nP1V+6BfhMWW^`Gde1T;&0URUo*|IJr>&3FbN^>ex!(vlMLH(^BTMq*EQ~%QP9)@
zg<=0NMoSYu@C=}|!>;*>5D!{7`~7jrNZ&=!0HwE5PKm7t*7trp7A>Z|fZPCeFFjyl
zM`8}+TfVL6$ftNI>PQ5|<0%+3;u%K!eOSVE>KvDWqP+43bET07Udu|OWjCWeS_^&#
zBxj_fv2v<XHy7wk*VVqQH-@;(MT<pU+fGO}NBv4r2DlNt$H{581uR?bA%hxv&dcWU
z+<F`hW?#Cysrs*6WrBmDHC!DXVUF8QW3qUV-5e0}d<|!g4Eh9XV)TYYqrkuNW}(z(
zqIJ#Dvh<kUY1TKtUJoo%Sm`CRs<<g$Jk!D?;og1L&-&U@<~6k1&*lXCv~<f>nJ7so
zFS}ft$5a~-wyTd`%$BaYa4*;Ej~x`em6X2E;W+xCXkC$^tZ6!hvg#M;L0Q1yQte?*
z5D}vu(>_yZDvD`vz%xFqG-JvWGUr*A#7-!ZC;N(Webg6%fC^A2XcQxu`-0ggg1|b)
zxPE#+sNZk(sIAy-aeOF$A=!aV8c62ADS%)D{zkr(M5o^v(%mTLOL}#)5=#_~2PdPJ
zJPJ!jTRd^t(DJ0lZ~~v`vE=WAT~v`SG=HCOyMD@UtT&Q0O4a0Qil#Nlk%kbz0I?sK
zS!W1s8=SH<Bc<WA5Z7l(@(dh~MvO?f>ofSVu`uagn=?x^V=c<&*B6d_wDc2*Y_O;~
z0vlYOdB!zg?E-B}v?1fTZ>tB@jlsmIkxFWCEq=Qh7G-M6#2i{u`K(^VG~qtXJ+v$k
z+J==vrp}{~>xOjk?q_wvBVQ4O7`7~seV>{J(U$Mq_>#jTt~iZJ$f67V4M6Q1GVdos
zS)JuSfNzLTui(kfQ=+S9qigAlks1=+a7B3p+@dn0+7hPRm~avku*h+qQp4|lyJFdW
z-OToKrO3FD^ywF**F9)#I4$r%3hb<o6UWU7RkZNZhUeYOFxtC62Wg~=9D|gCLCyF=
zYY2WQpnc-FjD^ONwj{R~^h(06iI}%kDq6NQ76%4ee=DV6u-davLd($Q9O7F|gbs~p
z<1c<a)Z9?f{0wjUE!fyArwIO;>-$K%Qrf)~x4;VgrPKvSTvz_6pIRX`WeN9(LSco9
z`t+~`PVHD%7Up@BN24g6b{b7JGTk(|3a%v;qQe9vMlE`}_9w5*j=bE?ZfH9nnKC&R
zc<?2d;XH%+guxknX`2Mt8B6Z|pK64U8NuZI*2m@LGL>g1SZ`m~94fo>6%rtCk^N-S
zi+|Eu+?nQ`x}4z5Qgdd!cs7s-r2Nu*EzYRNhRpEj>@Y3g6|PToDdi%6{H4T3wTJlv
z7PB!E57CRIuhwNjvQ(iWdrGMciCYYEAg3nP8q>R)P6G}(Wg2CFMYq#Gd}#Je3Oz1m
zB)Y=u+b#S1_b%;$1H+NP5Ki2{%k*Vt%5`+`i&46`)(PY`BDxq5ntGx@(k6m3_#wRo
zen{3xyPP!Zv96_`hecz=SNEpq%5yq^)X^D=e|pYWVHzy+1h>z5{(PkD18FvuqgRwn
z@k;WD&Wr#1`R)<wxgS1)7n!s43E2rhuXNoxUxnsfNJ7M{sn-mN0{19YmN+uHt8a_$
zCkXC<gXZpq;me;*IK}sT#94w*c#@6U)2AaE4+lWUS_b~UN52xk*D$-6d@*h<;Ivj=
z8V;QL7FTQ5O70<$q{?V5gx8Mqa!+#U=>C5ILqNR0SkbM%LH1lUxzyW63XASSNG&<5
z3Q=B2H>AE8xtHeGj89VK>ebf1R5ei@eF9f|<hy#odZ)Rta}HkEZN<^0bDN7H`iI>}
z-rt+IJ;H-gFyD<1!0V~6lg9te-eWF9zQgHoEABMT0lB%FI0xGH4a1Rm=ea1jhkpTt
z@0{qj4Wa{h+QpPzZ-OushO>WU<wLj>vt^jUoO6r2I;l_`f|Rwz>3;p%f*KQ*%`EPQ
zG$-eM-t$ok<8U<%#emO}?qt(>8w8yN7<^NpUWpkeu*4CgkQQYnLZK3~EOGs>I2?}W
zfDo3c5eSA;VQGQs3$hG_*9ByaR3K0QU+L=vZwNQAb!~xZPD4CaWSv#})aM_dZL%(L
z5i6o+!a>za*Y)g>Mb8+`Vz53cDu^p62%3?CI}<w5hkd9v<Ypg^7O0b?kuBR;mbpGz
zn$e3>Ugmhy0PJ-ez!+7t)B4`DO>a$9_ooTYQyam4DL78ZafBbP0^WnuYtk}=^s>Av
zNeD9|oacT$_W9k^Sm4LZw(h}_VHz1L5*e=~(u;Dy#6mE)FF)z566E&w%!+kKt<_kE
z)u2vJX@=hkj?qN`JE|C`Olyzn+#TO2$Y(RM^NG^L0MvQd6=s%%WWM4{_j)z^t;kfQ
z*Aifs5!N=Mzp-zw<ptiqye-?fz6}ShU!~98@AEHH-o74J9<!OschOOgqw>FonXAn7
zsL#2518W6hZuSt31bEuLRBe-*Fc6;pBLe}-#{+H8n~{2_ozZ^Ti4Z)>OE3vK-mfo&
z*u&mwv8DYIlFjb(JiFNio`StE(lmCbFH!LDv;~BSI2IvDP7--`_yD!@O2iOIUu<Gy
zc^s|%+2}i%wU1R2E@-e{2eP@oh=>W_3Vc^DjicuPa#SSbB;*W|qO2sc=8b9ASf-6Z
zgG<i>TU~KmSq#sIK~%MVcq(Z=oUCcEe^1jp$S0tlm793;HtqGT_3owSVxD!TU!Xnc
zeA|QPo?ZcgFYL@&-EXSLQS?$vDLD&Ua6=Uep(RUcv5=gSe5%FYjlK1^!$ZFK3OHn(
zIw33eluP`Hv%K*jp1DPj;xkEoK%-a8GqeegYj>^0RQ+&Ki<#u*f7CM*z2sm(?wH1u
za~gGk%z_?TnCsOw&a=S)ZQ#I-*cp~vI`Nko`|DPmUu(sgaIXCj+Lu>>UKQ5`x5J7H
z#!toi{YV+<0WW9~l@rg_!@g3Sy+UgNHmLXu9fzNZc*gh5((Gy$qGzl>gK?F?iD*o!
zOgdxz)#sm++@Hwm5*eNy@NhxUCIV|$F-cv?KsIeDJ}#N+Pw{H%jO!oKy~)c8GgeT`
zSF74<3OpEv8Rya((@nK)b{gIu4nE9Fx9&}ukZiIu=uR`-K!CdhZ)QMM9wEOHlI7|_
za7k(U?`fPU5oJb>KLF`g4nL2A0>2t~+Ra^SdzwrWzTST%NA;s7rnPO-J~_1M^Mwm>
zjYI^(A&36@7Zy=e_HZvTPrszrgqgi(c4p@UIM-KaSI_t9lXI0_WoPMZq2IpsexF_T
z9vvfn3r#;G>wfGesUJREW#gfvS+|MnXVc>QOOh?4d3oV@=2+z)5$gy2Nk8|BZ~y09
zUp-&8QPz5K9(q~sW@J7sDCmyX`?39o5;dK{0|`mud#PsLzQv><?ykpC9@f9NvS>v@
zV>F*njF7w(-+UayfuA~L9cOP`u2g`On^}rXGZGR9u16d<%aXLZE;St9rIs_i@gG7r
z%M&t4h)4Wql5DQ*w_aJvpI)kIR3qbju^@@o3!-S{E{QwWln87wZ?66$w{7UgG3RdP
zYQ3L+>d*YZ&)zh>pyr3mLf(Y}D8+Is_S%I}%Io^3pwxGUqvEqa%QHg%t7#X0kddVP
zHnpPSYr0PQfl|FM3F>3}D)DYyZ8mqTr##BYFpC_j&h(mtqM#lnq>%r#R^;F|x}}%x
z2#n92?wrh%bLiit<TfGXq)Z0WbsU@=%5dw2B-qG!Hq+V2zxZsocrzibL7ezuRuj{#
zlG^08*n{C&;+9)g1h)l4#Z+h#*1kztZ6?tmB_oc)%BYKXy(HQgFiR$UnoY43w%RMH
z-ehj(dtD@=v3MGV1Gna6mRD}ab?73ji*S@YR9CD<=i}f1zI<8V+&QLK*tW4)XV!Un
zN%^T}pg{}{yad2U=kf7^C?wKAsz0~R=ui4tipen;qXFh3gy0wu92v2(Q5hI2yTNO_
zucd*R7%(XjvZ0w6w0?tI)3_wDSr|51L9*dl7(A=Nunfx}aCUoyL)}T`>qo`^Js5+H
z2~Ao>Y>s`5qomZ>{Dz$*XL##)SR59a?*@}6ojlcKrB9&hu%J6k7o9<x{24?KwzDWq
zvrZ?F3+>@XR0QnZ8R)lbCJl6woIGf6iO{h3l&6RYci3~#Vav#ljcbnKGPk(4IkYq|
zq6kdQRTB)DUUP%}^a6t=CqXu@2aKHzE=6WXLNsANu@re~bChSe?w8QAhiab3hZJEd
zc^x10)n)1y=9ms1Asj<>SMvx4PpyflB&b!Fjm3-rR^Va7R|i{CD@andLb?-xA(@;m
z*oXr3m?<GuVc;cr%&Z}3wql~Q#x1k-#1N7YJy~Rg#)cH)UK5XQBHV;Ha$|#uunl(*
zu}i~=ap$QP&cqO&K4k<N&J(uX#3Ey(c~a1hLVX~C5DA3FMw2L^NpcShI8p`uC}!*_
z?h0sK8^V(*;o*pljVDt$ekh<(;JYb=D#twnPjqZdIer4cxy`e}2_%#o8`3kr?e0Q9
z!a|=H`~*_UonCN{eV1bDdByh{PhM;+Z@436V_~w<d4=&J443bWFamhpl4l^*8Da71
z1AOF~7A#IffRl71L4{e1%emh4{E<DakL3Xg^IaB>Gt4xLt^6s7W)O^XVGVkdNR=OH
zskT4&(>QS7niOO;E1N5`1agikwiHMb<uN3Y2`uz0cMbVN{X$-3wwk$Jz#x9O*%AWr
z2|EM}7S|+1CG}afJ^SZm;pPDxmQc#F+g38oXDQ<|tc+@i1d!7d3l;>1!Is(=(ChJP
z2`q7a!47f00kWZd?YOm=>;DR`pJRLM^?#FB#ZdVq{f0$uA|q#`xrBwru@N?#E5Pa{
zYAr0W{g7uPDuJ+AT%$<%bqN-mTbvEAV8CMY6Wq+)ES|;W9(DQR)SAWWU(iqTGF}!B
z`96PJ*u`u1>+;S1z4%0})33YY7*wT^qt5_+%TM^Q)Pc<s>_(2Ea~>Qc5M(xN(ak%l
zgejvrk}F6KC9!y6ZG53V*s@w+if;_o0*ZeCD}!4uaKl(%s<MK+EV>W2T3c?7kmd#U
zk40)??+37dY-~B9WlwztmOZ651shnP%1)`3q_4r=uiWNf^9zwPTQF_La!O#URBCUq
z5yeP(PinS}g)33vq?D0lP!K0I1;%3a46u@#%VIHlkuAc3`hS%NV5;oqKVa0Zvb78i
zWWw#Vu$UNN!p7-<uvm;lO17&A9o4e&OGH@5=SB?a<f17KUQS`i=M?)Xv074L#KOrc
zm60d2FCtsENnomD#Hq=Jc8qOko-46Zan<Gp675Tdb}U{<Iae;?VsVnUj7E`)XBj4N
zdsk~ETFpXCx5HLuN(Tv|M140F4<OhOr`aqfnb3cz%zK&0ktxg+8Edz0g_^z0;qc%3
z)qyH=seGE2Q`$@Yv90}Rfp@#?YCAlWwB$|lpnRuhi`GmS0V?HCRsfizs9VZXAz<>N
zZYhgJjIrSLGFdDTry}fSvY2ET4qh9O#o|?LrFd>^3(a(#xE^7fsg2zhy^U;mMrwmb
zx{LSJjI=)xiFSBHg2hia$l+A2e<^eTH+fthm8?08{y#zrO7nYtdCl#ewLH!B@f+HA
zO(jL;EfD1~h5RT?;?yQt`?&;Rm66iH7a`%hFm)I3jvZWfBg}GO1L^(NXg%>Z+W@?C
zwNXD%+iC+(7&@v{^9FB116LZF99qH?Lt#d8D6Pibgd|UkLr{wiU#F(UvFMpW2hq72
zmrnvN2Zd%eCSL?hnlq|u9Da)81APQfS^rk2$?`4j6#Y2~DIGiL-+!Lv|Mcd698HUp
z$aB_o{KJ}7e^OZ)T|w*dAiGCxXTON3CUjTY#P%|6o|U<1DdKQKLJi3bt2S-|SRRlW
z7#r?#c{K#yC!x<T0s~I?=E>)=Ej1vXC_K<}HWE!WS<I(GS&ZEfe#p-JTNkn{moS%?
z`{AHHPv~<r!fno(DT-Yfb{L}&&iv+!4pdn}Cw+<Wk^m27h`ch7?`GhslK{<&z50Wi
zDv8@kK1{Jc2t#&C7QRoCJa!|@T=0{G9M)?WB)gE`ChcQkysfgpw#u#=rnXfU!akQi
zc|!HMNY#n5g#G}GE4EC2@kIUroNx!FJ2jy%FT|%kS^KEim(wm}S%P1Fm8RNGH;Pkh
zP7<=P&goD3xh5{J)z-VZcxqi@mbAO|NlmH#ccHV{6ge@i`q!Q4vefF!NB^>R<O4zT
zezQPL;*a7-$8EYln8Y99o={y`<4NZc$&K22^lCy{VS28M+&m;J07-jaUJXhhs6&`t
z3mpO0W!RR>c)|(*VYLkws3BQnNVe539+I`v2JV~=hG1s9UsB)!3K7+`j5n&`iR4wY
zS0dygiJ-bm%TS{llo(LWu}9+piUB|^qmycIo`4Xu?IHUdJWncHt+VMQ0*ATZBUa}j
zn=>D|H=f86L}V?`7Eptes%&Yga5M$*u<j;O!<1nmKwZn^fys~%p!G%^H7Gd%rP2A|
zLCFCqj3-N|VR;5D=jim|A$kV#*@O8uH6$+rKhyGz5p_n=vB1$W$CKF$kh|>99jYOD
zl}B=PzVUFpDQqe!_x0>>8eCNykaoGIQh6wu6q)GpDwSS(VtaX#M%4=x+O8XJU#e2R
zgJ#2`{gn;&j8ddL>@!N%AW>PYm`be6-d~sLxk0cI$HT?F@#ubE+16*rD!z_9<C%EI
zPg2zb2M&E%#O^H-lS%Pi2eviU*v*z^Sx#1`SAS0lR=G88lys%Y+9-AuXGLCRf2aRQ
z^i{jc>UM+8D2Qq%HHLE%`0K)A5-xj9qsCpN|HNI_t0)&S0$#h*#<hGs&aABIyr0I(
z65V!%_nS8w@m!azde{}1a-4TkO(C?r{Y6_kjYq>vt>xH=tXcF*=EgXBZC{9<z0p}2
z&N9dcEW;$Pabix2AEJeH)%MX#oZi*$t0Cg<B*iAZW5M_61rNi~df&FM%`#&`R@3qz
zC{Ltn)%6H?@t2jwUb@MOB!$IV@5rT|VC8Ume{t=*psm!(n?m@<we9R(I<3n0trlN;
zt;EjCWGC%=Q4kO>qxYJXecN*Ik<uyi$catp*Bff%Urs-b^28&l8HFA(zZXBo+SHj$
z7)QV8VMnbGa^XC)j9pZJkes)WC#$-R>Rm*~i0bYCjvI4tF7>n~P>&d&mP`FWxs!6K
z$8Fxvnl+pL!YPbt?T6cU8V-)f^>_Z3cBeasf{43CIqW1?FS^mHFTUGJ{ZNkY$Z|8u
zcRF@8w>=wuM*v#yE}WAjEuG8BkXR&1qU4%<SQxl_S*P}ENfL4vxOqxsLPF~iyU~UB
z*vgjvXXhwu@AkuY-3hzFoYU;)MsjEr$zi|94QYV<v8lmkv|nZ`e8h6-OEUhJ#ccei
zXgTk*-Rj}H(>R>t45H-sQH6sh+cFjXP`-n}Uy#gSlfk#mhxZlaE~@)r)2*Ls`PbMk
ztwnw4V#M(jYdOrc=R+h#Ye4^PL1r)3J#{f;1G{m)b){Gq>-LHuAEmqMae04>%~kJ}
z{O?zzXK%)6Cb6e4(<gEJg1&5ikdn+vV>he|DfVd#DVlzfMC)ns3pb0B!+OeaQT);=
zFBA3=#@Y{dUFDLGLEpz<I!@gvIeCh3d`$9``F~dc2v^UI1I872+TERPlcGox$K$?{
zC_eDAwVk`Z*!KFSd-i(w4S`zP^e8xh{V<<?3)Inq5(>zy%DtF~30uYgkE|@nqW)0s
z*Sp!<b3AZo$t0eyx=){-KPLB`SGN~`23BXc4;IPZOW5*mmW&6k)p_{!&Me_?ja+-@
zB`=os!2f?_>n#hC;|KjD{LX^GB;15ScX~HV4*w?c_nX`CAAi38d;9p!wHIN;Y(HVq
zAc;IbiHD1Dvtf(G>VApB?H&KXOTy@&Za;W_H2&s}tygzCbyoZfZo295x5w6R?#Nqu
zJN{PO+j_g+y|+7T*-y8OPn*srv$y*Lyq6>qf7Scbb#C}ef4)x`-)%37nY(3)7rUM5
zlz;Ib?jcY^a)BC5KN1!!Wf2;%i;tYUAPI#q{2%OB+h%{LZua9=)xoig!QtS1&$j(9
z!A-P2zH^95e-duD-n6$1cOCv_na&B;zRr67h3EKIsU?T5Wj{pz8~;1)WB2<*C>_^c
zdWqNn;<L^2_>KUq*oY(l*l|av9&87^(Na_g4mB5B%Bb=_;^g`WCFIeX1uXIxvDN+O
z;njl|d0X^IPbuWD)m?`B`G&dtFvFIXbDRA&P5(HtJ1M(6_ZHtl@j-Ih96o5C8`}-|
z+;6@s3&mYIoa>H=-Q?4L`rI+}-rAJT8G8}abLeh_*yD-Z<7q6=b^jAlMI#lsQFizx
zi<lKuR%gay{`ozxpon5>ti+lF4uAI|-wUWVHT&4{rp|)+ySLdh!kAs_c&_0o`4TSq
zp>bb0fzl$jr~E&nd>Y3F%>jqsV)hg<s#$4Z(9#05f9yWAJI=YZw0`qfEb+JOmaV9>
z>Ky{Mgv~17jC36C1M%e9yIC%2!T#@sMeHGBOMk(?Of<HeW2%l$Ig1?BwIbyxqcnS+
z<yDdOd;!)V?3?Pq*t!@P8z@LyacVsGx8nSpwZEy;0SvR=v%<Uae%Abo)4TD$XNaB1
z#mje6ebn@RK=s>3`=K`T*DcQc+2SQwTMT{r1M!QS{R;mKU+FEq_JOO^wGLB~JeFHO
zNH=od{p1B#w7<(Hcp)@$SER99Oi2!|*~;ah!YEvtwlA)l!-lU)1}JP-Wl+O~l5h%2
zm_b8GGjWaqJ$Nc|fDtT}g9@X39t1U%btHkpsU(SZ@={U<YtY=l0k<iY#Go3nTnw-I
z%5}5)5?w`8dSnAzce{tm4Pj;wKNS_^Ad|674mTakl)+L(I&X^Gh&3dk8d62lP8Bt2
zfi_>+d@_DZ)>nsY)EerbF+b0U<43qk3o@QpweSvgrLtg+mb+Yu+iFT;P|a2@mKx8|
zMWD)~a+UsyrviTSK$b@pN*gau0F?xn34Vqv$U)|KnH=8HsY)5_041N3uyb<~R>u#L
z(A6ypnme^bp)yEK6zV{xsFwDBeQH4Ut(uzVelhTam__=633-xGR0KR(T({BTo;B*~
z0(JfpD<10p*4EX&zfirjY&Kd`h*gEbV_Yc=bW*9I2zYcVpP#oc=jX9nR#h0hWh;fj
zTeecMzt}KOvn2R2LS}{4bd*q+hR>#IX|PbsZM>MhRb3G(unLM|Jf9Edp)$46F5=@W
zKUiPA&tEX942njpN!%R|X3^r&v*t^;|6?B}%;6)p?0fO(DSXOaoZmX$(ho+LGk}mo
z6nq1N+zpom(MSbOv<r|!luv@w!_3W((gYNy|L7q~r@3fimQ51TBtFlF(Bmsy5v7MH
zzoIgb_`A)5mJHO%1+{#{FvuIV$-qjgZhEnm*Rp^?jV&dQe!oaJ6ieQrEOrGyes8he
zIXp!Y-`h-oblDHS9SBISx;057RExtxA#0MtR5--))Fh3(5;aPcD>{v{2=%2=8fhtM
zoT#j7G!Azz5RIbb{0+uggu2uyjl2XMN=s0!Ow#E$lc6dpf@xqCr(0-n$?EW7v1HWG
zB`LX$MoeB^w+vNJZ$Z7<CjDDB->=hGP!!FoX?T>{rL-mlBY|jCM8l)Bs-O{Ynw8H;
zAWdp#1e7*~GZGF!)r>?|yJSY-XjU&Hfix+W5m4Gy%2+^c%4B$^_BAplQ{w^|6RL4_
zj0)AfG)BN`Q5RpK8KIuwYpp7hK7{Sp^IkI3d}h`HM%|MFtC{_v*iI$(SBP@}DD$mq
zsAW%&hf3Ki&l!WGtS&kzP=claHf_yw9|ZA~Lax?&wiX;aNCq2X2hD3U`v9Nq4fo><
zi9XO_AKoHyWB(_!hST)*BY%0~?rm5AM+}qsI*DQPT_ZU{me-+o8!tUpZAmUr_7}Vr
zSbviJpS?aiMOuNVxQ{i_R2Yp-QkV*df_+#MO%128E+Q3Euuhh0|F13@b*ryVqS~%r
zop2QfUR@~Vi&E-msrC))qN!sM*2*Nk@N6<vbxq3Jv5Msy4K78Ww0<sCOSCRBW%qMk
zpjyuC<Kn|#kBb_gs_L)8BFC*P<0Ck<bDd3)?^N@OXwC2O!{s6qvR~CXLB2x0PLc6k
z!BeF>)$|nk@>M=n#w&F{RorYOKoRb;9;e7xsL(~oc6af?Qs!%Rg5i``@uWe8x}G#?
zuF@A-Tim^eKq}V$6r)-g4Zw$Up*T};u{L70Ya3#cw<%b)k=qzuskfUJ6_s#RI>3$5
zDVxI05$f^eG-s=_j+>)Xb(5PVtZ6Ve3tQ?rH;1Oj5!Rfo%9(DCPOnR?1*58e-56#)
zOFIEfZBD<IoKV(ZbWSxdyg5=udprc-S`koO23`B{=v5Ijw*tC$&OkMsCxduZCjujj
z70K)is$%fKaNblcbA^?AwN=`!5cL!~tq}G0j5eqSPK7YI+RljY#=BEPWA(f7PG$m}
zf;Io0REIRW6Hwi>;ZA&*@4R*V;veR_tTtS8_Y{24>Yn=1!8&Cf^iSNbsAeRCp=tEQ
z2Q->i&sxBuYX2Yse6prb6DTA5iI?T4VL0F5DeZpaZ|>B|<lTAr0fbPV+FB6Q@>vH;
zjU?8KQ<=GHIOyw}^#b;;Z*jpP+wPK2H;ml$^tADV^+Ee?_9oL7w!TTfG1v^B|25zL
zx3m1o8(<fO3wP@+qOfZ}?!4f&>rQ_yI}&%L4Qa>xi)z1haaApSCm!$J(@K!(kHjs5
zCO8}NtKnRW6qcZn2k}rEx_-9W=PCKq*W>+a#iEfPyBThytp|&J6o=7q+m3YG!94qF
zw(($+eZR-T)gf~#1qY(w>HVSw=VVoB72=#JL`TC4whH^g?4eH$d-p_hh7MJ^>4J<h
z(1ANw&}iAca!tS;6HFi4cCAbmXy>G!5iL7d<pt3Oadqu_1Cl_kTCslp)%}_%sy4Y<
zHC@O)c01?$yBbZUoi)HN`i~VkhF2f$fqG#RbCGwH1g}!P%<<<q(K?~3y9E@7PU*!n
zyKO%Hy@H~&iZn)k)>zaTSH60|V_f~}WqFbH6_#>EAy8TB)I_;@aTEX%*#rG#jg+|%
zoTwYOhL^@IN4&b=KpGP|{O4M;<%Z?N0EIEN19rOx5*VSNiPr^)0m=vR)F5-mH;Q<|
zkeV8xbTCd4vTWQ=k@q~_rbd?=GgHJ9#&XmE<pV4S)O`tsDIM|<3uwvch%9MwAVn5c
zRzN#&PF7G<$?%L?T;(G<tbnc+8O57COdO<M6-jgVd1yra3$HIX@b8ua@EmyB#a-!B
z;!YE;_dg;D;rIv$$}S$O=<0q+1sE`z%N#2H^}ie(LFalV=v%erDn)vx`|0lK>F&u`
z*B7tn7s()=E%oWT@h~`VJXuD(_O(Ws`tu~U6S5dzBz@h|8dtkdE|Tn{rqv|xVWexP
z#3zw6KPSm!u;@jr)FXbf`HGnY&%`$ef#=yn!zXXqXaBS6kJ=n&Ka|EO9xrGYG&Cb3
zp=-~HWhY4#m(RrwE2qtPxE<P2?D(sUNV_DWoB2n?dUG-nq=`lB6^X1_l#$&K)GZo0
z!*y~NOsh3<lChsO<IwguPqe8|lmivdXxdf&dp}(+Nz`#-i+EwO-aI{$W}tOWyje-W
zw>`2b2rwVjx)FIvoruI%LL$%c?IehbNAB}y^nU9in%~&kY+;!%X^@a^5?BR3@ik{g
zT4Ur8cX4OCDJih&OoM6h)c*PYiB*3frnY|Lm>XS{7~%8dolMRodd*cofBJg&SN`Sa
z-bw%A-`g+m=GJP?gNU>jWND{v(mvVzzxjJhpE<!!7&(4YDn!$2=hN*6@8ttLrYY={
zV=?W=SY?JfcLSdkw%aX@+2}<cgQxP#=Aigl{4O)Xg3QvD<Os&nOU#q}f&4cC^)KRT
zTb*271KV}$$V-!TIGqxnX|yibv#ru0n1w4Sf8UbSI1<vy%jWsg{Is0tD2OIO5VGVn
z_rh*AOybz?@FgQ48t3cOyT#Pg&?Umj>(WFE`A^rOn5H2wkYc8%QINvYFy#kn<%5iu
z=m;(P!cgc_M!aR2z3lHfYEW7m6wlaSkau+QZ8@{Gg|UUKC2QSU;$kw=m6ujwu@jOU
zbBKx)Rgx834f=rF&^NxQ?*{W{l)V#B-*%1z8Dt3Q+a?x*^lK!~#(}FsxHyG0fzJgS
z`7;oZTi-61A%vAN1c+vq+B{98S+I2CM+ll<fGRgij$(TWqw^a=N0ucvP7@HPzmE=X
zI2Yg`4|)8K4st2-&BiVc1>`eDV6W~wu*v@uE-d|s*w66vE#9ux-0s)LtWCf?@Lx%k
zG)Gb3Jq?@7?7s?S$)Hv%_AI5M){bpw=u+vxOXUJ|!YXm@610eOdmaVH9OSEeG`TSt
z)h9l}TqN^Hl#3_80;!rNKa>mdlhMe{6C1<_)$7VmV3~y=BiFXSf_+v50Am!RkR{0k
zHit)w#bNiG?cm{Qg0AV;BqTQMP+sw2k~D%9>m42DCW+E{a?D{UUS(p>hzog@575O=
z@xbu|in6#oFttnXV9}{o7~#b6oFqo%rAr6&dJr~m{mT&M1X%0o0jb(zug|bxSVDqq
z9)YzC%p@?BP<KUMtuqL6$ugr!CNl<*IN}>9WA27rT&X}+G;4_*EJ&TA#aw{ZblD&x
zw3|aW#*u!kLzXEjWW|!*RWrtFwuSq)Q2^&3nnMv)eeA<TuY^-&XXe;c<@NG&>Pk%&
zn~qpEOPC8+ohVZ^T%_tCv3xSdF&jc7;_UI5A~DB8vgg4oZ1U!$4q2uQrb695Phs6Q
z|JI<&oGP;Td^HiR=`1p5ZY?8wm3wu~80UYFHh)$kD-(!&ih#QB?6a6^wrR?RA%aMb
zDLGHLk>YL9nJ~A`MRZ%-Ee)Hn0O~Slp^(06$<~xJNt+q0c+lJe-TG}^)oDw2X&h#h
zGA5a2&bB-ghuJno7M_H9bd%VL1J@(lUOmDrgX(BP|Hj^(GH2WQC7dm{xWFcisYox1
z?6pWmI&gPGTuVo~1ECM&)hL*<>0Suw^2!oyy3#WLoMPfhy$ecxUno?QdJpQs5frJJ
zvg$#7IKt#REnCu)hvRcZ$-|=udizQ~Uk#AH{9d`#t6m&CD>SFrSAZSQ!}cNA#q|&x
z?tN+850dUY%=>6~Sk1Spp+11{5E%#)kbw#yoYD>rkOA6MDuQEx!ck4;tHE&s7@@v5
zLO5<efnXOJ2ov`c2zS|P8x8#vY4o?5J|6TZp!cmb<Ea5ZQ~^X`V>QGLkz13bK{1qu
zVqYQVfiVQZs7zQ5jFG$*mSL?zi{1zVT+%X_u#fOKh*u@1p*{k4cGG&B(^K4Fc#6!F
z+$nA_+}bxybf@y7s}@((1b2oiH>VKJQtmT6s^F*_6Pq(^b&+cspaFD-L;|0Cw$xx6
z<ND3hJEjcBm<%PF7H9$-%L{N{h*J~XFLWPM&9O>r_%F<TOQ{|cqhCrG@j5<e82!dr
z5^DmJpWh1n@LNl0{7gVcr_v@qQIeTT;(7wfOw`6glh?TdFI-fZyqshBOZD;7IJ%J6
zfWu>D()eHC=?sPR?FAl#aE~L<WOXShjO>oIs`}+iOub}4XA0~R4|jP7A87KrLcI&8
z+nS|aS9lD-!<{LvD_p<0rz>dk`h$mr97vd~{83n1_~$ARW>_iseX5kV&%KscsZYl`
zr8Vjr*C-y+Oc<_ljpCjIp@DEM55kvJ84rdVg>_J^dUk_LiF=TRCZ!v&Lbu)R@gy{b
z6*We8kW*Yym5Ovz(31C?1)hLz@!2bt0&lSz#MWW(rhdmSTAG&LgIi(mfGt^Z);l8+
zrxDt5bO-u=@!=|(LEWJ;kA?R17qijPR#kX3@6k$vpf#8!^n1`-3Wd(pqI*nAQmN$!
zdGn`aV0o1Pf$`x;;e_HpOd`Ad5O3a==uIC@;hR2~2ue=3wcl*?JKUK{rIcEqdQVh0
zFt$|dSp6nJTN>4Bd7Ou-jW%78T1Cv6xcl`aNc6G=rl8SYIC1FO>n(w%3;}~fpd&m9
zkrBxL4PQ7!Fzeb?7kEg_<dHad|Arb6b7>BEugT)DGY2bkl@LvhqlLV`rkx_-@v;DN
z{9j*4qsY!&*zMQzVK+;J2O!KrkbNJfdncT2W>PR!(A^QCRuZt4tuBhht|f2Q>P}X|
zrp<z^4olpZn6KyAFx{70bXjs(HYJx6Y_`jG9kR^H3LDq;Q`kh7(8i{csg>K&Eae-g
z_G=Q)0GDv@;;xfL%>tL9Q0l`MRO%~TNOS^2xf1%&&YzUTiG#c66`oD1#Kdx{vI3f2
zKdq5Gg;{|LQ)#$SQ<#-lVJ_h#f{!DiN4X)M1Cxbz*gWf38-kHF=ePgTl;;u4oX9B7
zBdR$2W)?NYd0Y$acVs7-T?KC_2+pO%D|>9bd%(FD(QW5+pYiT`2TybIJdWBpjC!%C
zF_xyF4tn5evuyD+)B&~?l$xiSmOhE!!l={?_oPr7;ra=+kr;~^uM3j~_Y=1B*mMW*
zz<vVVQ6=fG2=r12H19p3Oz}S}6zc^Rr#2P?YF<ww4eDpivTtRIJkMyt;Gn9ZhPSKW
zaaCTo>M8^T{60DwDlQmJRs_fc#zoI<RI9gYxOfV<sJvjx!)*obn)2jP`P$aV!^H!=
zW9?<oS6HsNTFk`7$Gh`5&1N)Ie9VLG+KqUC_^6>&*K##T0^CrPI=})2L*aF3(I5%n
zgSgwqPaY@%8ZaKNyK1n6cpsy}yH7*BEe|~g7J^Md)o7cCN(lO{QQgSyMZr*1Ug-Lw
zf=LVoUoV*JdXQ;vcmWD&{I|ErfDz%%iz=tIA}s2XX_cYj5rHjX+W?Y>M+6*U;?~J!
z;D}Y=h~Z!>R!BRDx@c&4#26mCA}SA$81z@QF-fpkOG0;<xFq=6K0@0j6Ztc&yAydl
zJQ8HH_~pf8YLKJ~n|Re1M5YR^OK_tL4VDyC>&lThH5tC*%kW60lk*kVY3>CuG~vC1
zu~AhQc)I-x*4y_-J=HLIQ*bqWU1P%X2Eih@GKYrA8?c8sY@OsG@&<St+R;QcT;And
z9=SDYMrr*WH$|n~=R0nS@Qd!>!L8%|oE;DLcQnDW-!P~lzJ?&-n+Fq*HJ)4HTxUc>
zV-2FQ&lmF0Sfd;H!?jlpkq`8AKd%FTVTd2NA@U4_3H*lw@K{;k15B#PWC}j;w+8Lc
z1FL}kAimsDnzUwaKeOT_^A29WWgUNzb|wS*Fz4~W8pJKPeSbDf|1=gKSu`9*!QArl
zw-4z>pLII}nMAf*y^i#~D1$MdGaN5uKKsIdwzJH3@-sUJo<V>Jr`){BzTLDepS&sE
zpW2$IQM|dyw7mZH>$9y{@zwH$wS(gO1__o2_xAAM*}U^~HM%#R?91ntd1jdz=fT{Z
z1@C0Bzw3yt1H)o)+BKpYv1G1zq1=?9<T(skZoiOh1!3NM)w&G#Em-tBVL$g5bC`d$
zDzCPbJwhPmj>i(Z)H>9q?dQee3L{fevv{-DF#GHKbwy9s&HPxeSW{3F(Hd?LJll`N
zUTDlqg1fu#7^NwW8P_oHznG0=WR7~WBi;-Nc^>EVbHIvOR}T|pU)Bny&h6-#M8jeB
zt)mUJJ@&vEq>eUx;%1`~$D6wT-BT~*Q<?U0DC&EP>}HFd)Oy_2q*w`_3~RW(1)O>H
zMZUnu(Ha+G?vArXHUA{;r`Aww6l-iwBvunffnfn*CX3?il3AQsQWtNPVt%*y=34Rk
zcyVM@cg`k>q96;=j-*tTHSI_gzY0?RLibjj(R1FRXEbAG$3$yb3uomdMFcuPUi#Oq
zzVvTK38Nd?r$4fcmv&noNf0gG$3V%*1Xx*Re;`IFQ`6tTTXUYR_RJu_cqMb=j?A|@
zZzoCA?PWilS(=dHQT?+%Ue<6(^X)<2P9-gMEK`q@Y{yw_8Ed-C@zx8ME7JD*o&3u3
zea!P|QLQDC>ERNX4=5S&9SU;zW9q({X?{(~x0$m1{C1AMw7=s9BzYRUCce^^o2zj1
zCj0RnNFHOu$pQP%Pio%gvIm(x;Eyb7Ma}-Z7qxP%{631KYWQaIHAzC&T6G^s;-%v{
zOOiMq=}b1i99Kxi(a)oj++7a%qoSwC>4#U1{KBaJzu{8k@FV8Cx%efQ`G4|q*RTHx
z-~)Ktt(0MJn=lZDwSR;$cG8bEB`TAkYtwDXzMLH6L^L>Nwv#FQ^|K9|7By9xX+jt{
z-#zd7?gTv5d08J8b_%u2E$t?Y`_=w2X?_Aiz0m>`7e=SJRekN))LWnRR_^A`NUqA-
z4Oecrw|8v$?Z-zo{|uSXMrN&(hC0JrXD32;ofHnGGow}MH@MS=&7inhdjka5k;PC3
zQ{M32n=Dqm#})5OmJ0aeK!Mn<6@x++XhRCCb^3fvmU)%D0Jg^+k;Z6)(jq)6X)WK#
zqCQj>7+(4N1`u@`gjRjqNr>LXSdIxW?knP#(*v_5u<ZDE-YmU?A}I<B3BwJ1fTs|T
z;9N$&q}*5u-}l<da>#l!Ti_S|u%+Z42=6*A@IeavMT&UZ31rqOm(BfB_-_Iz`4k|J
zfk7f~)I2Xa86;yHq22X+_da0?8F$X0q?Xpnrjm{a{R|L^`c(jyfp?OG_<A-C;zAK4
z7T-3_8#6;hr+1R%agFaIRc<a(X|BD0dNp`=2~2XW6u*|c=`V592Xh^?@<Vx+8OuM6
z28yj=`}JCyX=_2M-W~rbnu@)#+KjQu*;u-Yt}&SA(H~2__A%u<1nH^ZZ+ra9ydFJo
z{14or{zFRx@)wVM!@H5W0nZh9+SOcXbECQvt@n@24j+R<W;{2}=1gufUsN)d9TK*%
zB$NF5Cke2zjX=VLSFdhek7Jv2)U8%8QUkcVn$E7?A5#-tWz$smjmMwM{C2YX0+JLb
zkqZLoCXuXoL41|jCjRt3dPU(POAriZS6T7jG<`igx1aue{0bJof$ByHQoRf%dX_*h
zOAR;jedK16e33-K41WQ$D6ubqW3BNAfc&(?vLzLma0O%hQK|$mR^~9C*|H0^KhS}e
z`kq@bs06JT!g4L&e@>pJ^T`WP($7#sNfITJ?2v!vC{5u8IalxV6xhlV|8D_F&m!PP
zLG1Ym&|f>HIt*Y#tP%XOFR=XtZ1uA~Zd*PF&ctyhwz2~M0hK<N?fNv=(D#?neLY>N
zy7M<f;ffB{qB!>nLXM8;$6Kvg4Qi#|$RSX^yjc0;#j}cdbMdIW!0T6C`w28W(#Tcb
zk!yJ&))yIqIm7RW=56T#I9rZo!_44Osf!qf4p!~ed-F`m*{2c1B=y3LMBgB=gb4!c
z5Wr+Zm8)L-pDCAqfz3zG$W<Vv^jp1AUA)hml%e<@xm59ie(7a+*wUm>$%mIcOICtX
ztW8iyEvzpr6x374wz0jubyzz8sIcw{WHTJTJP+M0hZ!Pjv}GVoZnmFL<*7i8AqJOj
z@aqC?0u*ND7aAqfr;#6pvZMGY#2=1C7NU=#$h03QM2Y8~C7b++P@6_U07vK3V(2Al
zE2FxC8Kg}5g@^oAN>`4+?@jW15ad~LO)7zAo23_4R*L})piuz4+Nte@FhHxm7)pVW
zhjkQ%8%3Htc&WGa@Ur-<#^d6+hE77V3ZOV&cEOMd-G`~0t|S*g&&ZFfsY!KiER{f2
zD;%%wtS7<{qtFVBAX;I^^68^~FxCcTz*}L}l-K_RJc~&qS9{4FT`2}*8CBmNtRn(c
zy45lG-l3nPitmw-$+mu#xC<yPS3rBqqYPO%e$$K6yB6y#76@Ii=6yt?Ub?%|J|BR>
zcz}rq!|dBg8l3reG97zX4z@-pdL=d486!`@xk>nrl1wGZbZa7{&4|G}DoIu=k3JxC
zEqGW9<gXuy1s<{SI6)Qc41y*Z#iG}4=qr8S31`L$&QF{0+UK=lmRh+E{EJ$stlzi^
z*8aG+U_A$&P8$7;f)iFcL=702?;ZOalN!fa__^mzBx#zbSrkxoHAd*Q6_;xMj^dWF
zUAQEyQesjP?kbE{)?%n-@@)VjT!U12OxjM2t!Jc|oRL{6Wcpp?2$arZ&T%_%eVQAQ
zPnmGOK&VX4!i|sY1eZn#2b=?+mG+kJ(2R+E#E$on`^qP=Xq62PelAYRQCVwIJvVCh
z$P|m~v?+b1?<+RFjctXN`KDrHrqm65$~wrjb8<C#S8<u#l8JD!W&1}+Hrc`^fN7pl
z>U}j^3%8_mAxZl&v*o^NVVBWc-F&Ltr&%^Ph{@105Bkm<zOo{C;3ufLNfCxeeg;V@
zDO&8G$@52mhij!Vnb`5<_WR<A#37zl7$J|h6qJ`UIMi*hr_bb$2^>qUEhI<+A)(oQ
z^%GE*gj`uItKxH5vMd$`n!+6?lOp6A+azH+z;=#fX%08RxMfkr0vear*iva?Y#dUt
zxeOr<YPX~w5>lNdBupy-TZ&)YQtTJ$0&@H#L}5O7>6Gl632|Hsaafq+CSUrVD?~CE
zB9Ro#a);6kJGhJ;3>%rQ#F%Q^g+esfLV0w@<g;z;Mu?`%0N6aYLOh*Dz$UsAtUq`R
zfz7rMW9v2sHdU`3>aL7H=Ff8u=cH#U&~Jylw;acr4PT}>taRq4AW16;S$lSR6lY!(
z>euw2LJz7P<>BhmTcgYiQ0jE*V$D|-2vx+4JXztlp99~~Pr(ZRJR7zbuIL{p(0%c%
zvS$I#P^@b3Gq>i;EPPAANci$)7L(JuD`@Kg7lESQQ2p5-lsQn)b{x7_;`X&CRb<bx
zAu<ijdgOEKYo^V`r~-xLWEzDjDf>^WA=RaT!Sa+uEGu~7=V>n-7zCQlziHE*46{hi
zMRta`l3^Cpg#Z&rGR&gk%eu?mpnc!ZmvL+SnaP1kx2+V7f2D8*kba9t`^!H`U3DaD
zg1-1EI_pRVhyK>(^%cBYL}Q7;m&5a!7L&#7h%U!#qu*3p%_^cc$(wa{A5s_Rbv1L}
z9oP*qfFe=HswmsnM&mOv--RE+aU?7ZS9adUWV=pAWK+&ot1;>9=<k?x=bz!2bn|>n
zyHxJbdQ7@Sz8sNGJ<GFbOuq9dQ^w?*NAGA%z6A=r5&5(;e6>3&;Rp1_Tz?wvVIG%|
z^d^o<i1X+X39Gj75g8X5%)Bw}RR0~Oa6RVIH_p)-=Kh!yY2N0zVD&~_9<{E?F-T3n
z-0?N5t=}$M{`&ZMQ--fbw!UM3Tl)7IC1~oyJVl+G+rKy)vybkoFj%*Y9QuYCvx7y6
z;#9-cANs4!$m@$!{I#2fd+u52?p|ur|3iEIs{#2;_+b8lyZr4OGn3<AA-!}oT{S7@
zQHX%6=c<Y3slWbNdm2wd>Tg#KQ~yt5>fvh@Yf{i3A!&H#fhkk#ev0}%4QZgQ9ber)
zvK;t^03Cea7>Z{2=34{myc{!Yp45)lHrX8Zdm4G8L35tE>)^<i@o1P)jQ1F*0k-eH
zAm{G3-rV`uN0`GMZXGn7%k&dwDYRwFk?k-IZ^hq&+I8r_2mr|F+SD!zLD7*TcoHsi
zxSKB6GLaG<@5^bx%mKe~=mFQgg0Sm(=Lz%=VQX8*ouJN}FlgEzlqLN}?!>$lmfpMW
zoGIedg`3Y_^iEuQ@+OMwgU*}x1?nK>Z0U8DKR&-Z;;Hc%vzxPAI{F(YJw($k;S%|s
z!hP}7cJ1k$kw$sqqEtgcoPBBzdEMTgyQ^QEqDZtzqIXXcKwHXyW6{Y4%c!jAX5{G%
z?E{h}N(6SF&~&l7kH5xP++)cDsWn298}Qp;=c&=M^RNxSWYZvDuTi3r+w5dI9unN^
zC2$$=EkBB0;WL7(@}V4an7pFIaf(Mp^x`Z&uTg6B9C%Pjat7QVkluc{ua=#6=++7c
zp|($`yLpmE$#A3Ho~(b%95yiSYKAdcwM8D6D{UmkvZZXSrGe>A7`_XAzg`s4Cc%^O
zx~tW`%fR$fKpkIsb@RQ%`jY;*=*OGVg`=QoeTvQnHf0a|<f+zG85e!f#h&_xu~(C<
z%lpq5al5YXejLwsl6!}(1~LB!QLB<?G{s3ON#uN-b`^O+|FBOVoOXw5>r`spQPK|Y
z4ma=|hPxzK0bON0{{my>=zGU@P0#6&o_nf8(u?QS-~=o1!tK16hnwBC=t|E>dm9sz
z5El(<ZLJQ&R*wRhK$_g4EKfqhvo(OnRQ~9$kVS9$87Rj8NTNI*Gsag9gro6YM9Daw
zYkNj_bVJF>_`F%csUp-n0*6D~_52N*y*Y2g;$0`hR!O8YZ%{zedp9T`>8=|Tko3<D
z3P?KS1_fN4Qo1$(7F}+GBGNv#K@n-E+MtNE7j4jOilW<WSV-DWHtc2!?HC&v@}vx;
z8Ip8;4VsUaT~>o)mVH!1Vs1O7h6LU9LJf&pI|v>q|2Xbv8lZgIrRjO?;j04`mgI55
z$w+%XI6bE)0E28PFm-+EDCr46xt)*y{4YFy+~tv(0k9Hy+Ra>Bcbhm6KKqZ%9Y4m7
z+j_UTG;w#kebJFYc1XAdMAG!vuMil6L7>4TXI~sbqWLtVZ*Bq^-CZxQU#?PgO_%9*
zr*7V6|1Pg)k4Q`3LVHg_l6X#fO&2DzKbOBLR)C)fdVL@XL5`2Jl*|@3`U7!UKT?AU
z>lJ6mi5F5Y+%vgzq|7!6_UIzYLbn*GF3ju1xyQ=ZMaFX$Q8K3yqR|rxQ+pF__{H(o
zY_a9wFIQct$}G-8hh~@(cg+A*26$WD$pIHS(ql{?6y=tE-jjVmLR$X8;1K3A@}p2)
z88P;fl->RqxH*SIK}OGqtc<Uy<vQNt1P2XVV;KbjUTGnD{ZPQE%nE?Cy%dokrf*ZC
z>YKNiaL9_x6|Q#Sx|3UW5b%A}{3rMP+l08D!~WqTC?o+nrK-NSBh(9s{k6P!x22Ro
zn#?;Su;h$bN#anIxZEV*L3T<gN@E-rBU7a_6Y+q_1{z4w@~C-{?6W*<rqzVY;a2Bx
zX2K*T#dsEV+4UmZ?MR}`{3v?D4+Oi)C;_MNUy#i57)ZZmYx<4b-|EN)hrcw_fih!R
zlO??@_6hsr7|6R)upm<2HE^rwoJ;yhz!&UiH4O)A6TMcOD3pan6z9UzG2>My3R8N9
z0PVnYp18+IFls7{m0{M^7%QY*=Z%muuk67GcaD4^$riK!v9^T15>mv1yp)`EM*~c0
za(B;}GrwTh-ZsmV0{c}_K6ySRNq#pqB6gemD8JxRe+(6vcLT+%q8vikCD|3RtX+~W
zF4072CzZ^5!?h}kcLzMp?C%8Fk^Cf(`Z%s0IbL8sU0g2y{rUQ5aQ_|YPLvSKB|Dt?
z)VeHxmcJk5cOj@zY~{(O=#E%&UU=b6%)_LKiZo>K1XNrPh^lv5by?sZs}H9#N@L;;
z<ACSh*(>U&7N1gy13{WfG)g6~5*6v1O4NmpRAMkP8qLUPbVbHqQFW>td6Rw!4BYkt
z#_JvvYtp=*XQdgt#xzRob$OwO<QMG+trdyJsi9hEhQsP2Vl4S5zpe?FWon)?8WEju
zN{AMESaf}@nQS$;+XSpl6<dI;F=WFf+icJ0j{Dl+4kK#2fEt(i@cilkHV1<Z1;cKf
zi#{B_q%EaRR|`T6MTY9yk?L0&orLYm1Z>xwAfB^nQ4jm8XO%qHWCO^q^Td9@N{9Ha
z!1zAjWXU$#dFjJhT*q))$Z%cEi!B&%i0@*oH)-GM?AWD!>o+`LNcdJKma31ys*1kV
zGYHFoV_6l}7)z?=h$uCzosc2@c-<Om6<!{_K-yVw?WFA~*3pKeO6e#@T*z9L70&wi
zs#2D;;>`#T;Jwe1ch(@RTR2w74yrWVW(56*RTD4NcQ~G$dSXb4x?tYOnP-;-DzK33
z$lGJntBSifIr%>oea<r9J_1|Oh4ZrY@K2JH1P)~%p{^p=+j%4bLGIzS9M(>3Ob-qx
zub~+Bu?LnFo#T28LFuacFtEWMLxhup*)p%101!v$h{)W2h$jvA3g*b5USeka8WEPI
zbQ3~q7LbfG^{ap*noMh`R`GYL&QP1EGgM}!PB)3GC~<L(*dJ;*@?Bz+C4K#&225k^
z6&jbrbZaPwX`do+^wWRB2sa!h1Z>k~*rxC-JmIFBJ`ve8Ml$WlEy?C@o)^~jJ!rWg
zrvvvlI^K!s;ja$e-)JuQNb<VSxF*pni<q_pV#)W)BE$zEqFnDPLVE$CNmQI7s9!)R
zK*cG5G!!7DWHljz`vN7VL<=jz`V*>}Tnj6LlZm)`E#gj<;SE^)I-zG@>@tA4_uLmP
zOIQ=8kiZH06f=Q}3H@xGf|hJPt8ufdJD1CE7LXrDiVm64g7Tv&daU_uDNmC!SpO6B
z)P^rqOGmjyvVl(&Pr_o~D%sEqx)pNAEz`WWfG*zJ>UwL!Kn9nn$Amo9WJ$D!aE}pI
z>T{sgx@wG(c1s3#&-e;KHM)>;o30!<PLIJ}Ku0pqovceQjeY!9a~34?YKw`gJ@$ny
z_6{WVZc9zr8Rn36a1(XBU=G)zld8GwbrAbgyfT2{UO5~dh5W_9KCR=G?w%-#f&MP)
zVn$jr81i|2fy?zPqNC*&Zcz%@O4Pa%{js37-9l4HtDPKY7U%PzS?(!L#Ab2+8r;RX
z&$d0|e-4hnaG^~Qu_PXkFyccUgh=f$wzt#Atqs9vX(2SuvxL|nz(BFPt0A%KXYli=
z-R*dx!imO%GT{&Wcj<VcqKWR+L788{7Tp`;g$gGs<reLnC|9^YNCjSSBPY<s8;obh
z#`9ew+*Z({IAxtnLUv4({F7fFq)%ok!So-^!RfP61RVJu=V!?kP8Ybg61|@Q$(OQx
z`&Calj)s#-7fk<I=Jke?H}~YGo=zfJFzr{Vj;L$Hb6m=NLCe(itsh^u*|(Ydo7G8i
z5;-WqP7<j_=eu@ENY_$&+>sSir9J<~gTKCsieStrrd|}9H~h!o0gGlpTNMv^I?g>P
z59mXt);!cUIGuA(SsSI#9F7diogD?912mm1Nuxw~!f9TeGdv!W6ubg&Zn;E`VJ^8?
zjYPZNCwLuW0Is$!1ov~F^`#15qkEbV9IPd`#w{oEed17a^@|dIp2%eJAeXaA2w9ng
z-!7#s{y|n6Wr;&lJqjJ7->{E`vPP?wz>Th0XdCodPK@R`Q&HgRIK`N6>GvOET%Grr
zpg8EbmLQ$kB%SVH-!DCJ|LKSJh;N=u;|ns_?a0wyh@<^YoN{x5pA0!330bX*Z)_L=
zd$`ZVws#1}3+5Y&>)e6z&6I<GmMsdqb#$VVidQ&!BFR*$)DfpvqHKuXMTri?vaR_j
zxI>TqQESAHs+Zq5GGV&9yX#9>WvUS8t4G-riV`rw!-*@@yIb6jUsfJ#%14?1zYx~7
zxSyhAQns*;v?9wC-$l_nEhhZ#i?f4kC+5`QE}!$H_WoS6w{(8CaEhD<oV-gZF0RA?
z&OkB0rwM@ew~VBRiua?UU<F!}+FyIJ!5ZWC*J^S#Rg6;VVZ&BKr&Bj31SvPmdqB>&
z57%T;+mw6J?>p<<G}C5FHtS=y?9M&)5Li7cSo7G{iiM`=n`F#-dLGq>GZFs*Sa)Fv
z(=X5nc-p;K+jg5e5MAewxZ8dVgfw&=yJ?)$m7W(ZAqIyS5Rrrv_v@<*j+53-AhG>|
zC7C^YkVZ3GLf5lswwj5Vh<KViH*4!>G_~%L%h$CBPYoM2nDL@s*p_MlQe##)LjR!N
zNV{rFQJ|vE;AsP0O?TlWNm~=qVgXq)6QP4_>*{$#afKdo8!X%_EV`~Q=n`r_qE&@s
zw}wYK_DKfqzHMC;P-Z`H*}{>jyjVVZaJ)O!8x{rxGN=hSG&f-Gqg`mXEEKJe#{U-L
zqNG@Oyuo#c8STXQIuJC<wy#t>Z1Wu0xZnt?MyxyZ1?uPV2nAE9Qe&XT6=d2#ub3ov
zK$eJLF8X7jlwq8flq?5eWDj8>7$1m98Q`Hjgw}(;M_~Z7ay<~UV6<%pVq_2Mff$DC
z1q{TrHD&|8XPcY)V>HDuj7>_)TLuWTMSswX^w%5Ym`E^m{ZWG9q69YVt2|t##iFGx
zABfYzfG9(vZOZ;$dK)kAplqN&pN|>CYsJT)0o;F!_zl1kHP2bGH*l<1feY3WG0<B_
zm8m=BY=sG<s$uN(HDI_?`ZNr{pf|$=3tDZL{B{>$%zy)1sd^<#%lP`ar(Ry3orgdF
zfBag_|3e<33`QB`SVsHky!-9?#y+=p*ArdwW~QEx&?^^Rh97mM@o&^io?6I_g1FT+
ztxtvVU)97tzPqGqCbFD~0+;cF0}mZZaA*?wnqm3IGTUxU8_7R9!Y{oE&Fp++B`ybZ
zgp*F1*ml%%893Vo>1-w+vZ*t-uVsX3ch<gsU>2M(m@zWPcA6pop``*Qf+FoTAKy^z
zG2ae#Ow&Wmx0_eOKZmqks8*+dA{6nU9Nk`~?RP8tCFN4XC@~4a(H2Kib^*iXOV#zH
zcgbFyTU5<n?8DpGagNI}#bmkH0KDt6H<xdF2uW%BA(<GEmT}5D?Cz8hr21724kG=&
z3tGx1JqUx>ggQnOl@Y^n7sKv3HR)!ICMBgyd<R(WMI9hh%$C67SpIh~K2P#Frz9MI
zZ-I+~)<+}NHPv~|>YqL0LL8ZL!&t~XEBr(~KWWna<14O|tU2yi{6QH+w50X%BE$#A
zC^M;RadGS3<8RBrzeK)F2b2U-n8*|t%=OPf<8Tx*nQh>to9*c9XU1P{?^qrwJBz~;
zqHS$`?4;Y@;O%#~Ch;C-uAC%4>C&ihfYU6EF5iK=SxNFkndCxN`A}UQ9Clj1sFV0<
z_Xut4?0AesCYH^lscVzTnS2y!E8wsd#|yF2W~bZgexxpEJ~=bVzD(?{fVe+^?3ub#
z(W)@_=JN4^aYsrrmoBn+Xq;nqoS&$Bj#zd(d7Zy~>XV*s)YxueO&jiKz#y0MT0M2!
z__W`yG5Lm+)hagL+^z0B`f6GHz7cb^J4tFmRhOTI4Bgu(wyi=AA!TH9(pbGKu8p2a
zdL2=(A(p4qzy1CV;A?Q1@UQ{d6?odsTw8aVN*iAL9|;KPr6#7eE3w&{cBkLXEQHaJ
zAP^YS*k8YA22@by@Pf&=Z&Itw`@HAF0E6bUtJ&M#j9lf*mHDvi{kppAJtHgM#eI*E
zY(~a?G#t@S;c`o`(M!E7$7q9zm-kR_?4ZBUTtI+cyp4Ub^#~58l#q#x-u>a58R4`|
zvg<$WQe6JmCdmtq?W<(7@g`P`f79<eBJ@*_JQ>D4{ky>H4US0-%ehLTBsM2@>V;X}
z9d5A3G0s9iH@IB)UgmAa$u<sZsMaV5)bj03U<ynCTxk?5!<aJIZfQb4mrHX4HLhmb
zrmJmaSWM-kY`tYV&j(?S@Fpd@a=F{M+~zpNdTKKIdAwb%aCW*HF>RhNr{3f;3Sqpa
zG#tcDV3@x{@<drjX|&Bt0-hEHms)s^$u^5GN~n;sBoOElu-Vdw%nQl)<umq)VHQSN
zGVjW}Q)>{eHMN?AD_trUqcYv35vSD1QA=7ienL$e!!m$zTv;v*8KXzt9B0VO*17yj
zvxnbPsw5nslu;*7ILGChcDdLX`ZS5r&<-dylox5PB=|@ZwUFj~QAm2AS}4!B2_q^C
z`!=_E(6azMM*kxtXpWs(<}W;B86f+0n-DxC3F7H3p9?iyW_y}m1`o*tzxcRpe2u!&
zAC9R?Z(^EvJ_@9?_6+CLf_GH=9|}}6jT+`$Bc!NQHedFTVf+<GDb5PWm(lh3*Z+Qh
z+bn*dzMo{+@;B*_`aB7}X!2^}*F9-<!1U3vk~^pf8Jp+uO8AH=4bm)($(|ICy+suI
zxL6=lUxQ9$SQf3&HjkH*RSIs6mZ3l+#ijNY|I0rsi3fPOU274yRvThpv&-2h8DZ`W
zb!`{E*FxKz)``9=Zq{1gf=pBRAg$;wU$!6__BL(2P?^c>dM2}*GFgR`b`dx@;&>=j
zwTxm_*Di8-T_IUlP3yP`tAyN7ybb>8McdX=ocT;6<+kD&H%Kd<JjD4pxV~mc<;E8f
z{Q;wY8|DOr@fB$$91R&nIY)tUCP$-%G^Lq>q)};1EYUX*j-Es<(a!Z(tMUNl-NJ-Y
z!-yq<<grnfc{^1GFm&@+(PPgsozHOWcZ+{LvkcL(Ct8qQ1oLS9lzCzgnYPT4uBn+t
zYMEc($a0XX+p-Rr&tlsYrX6z(kfYJ^0CBDWSf`yJ0OlGZ(&-2bMw>u|lG#WMGX=Q9
z;HQ^`UJ&{qPnZD&Q6Y%s(9B!akdelrcGl`Kip7-JC1sg<TGCBfU`0t%W2KMRG`ZKj
z8^;AM28^pDh8K6!12}7ShYZAg(204`tYHR_?4jmetfVJh{@F+FjcyR;Y2@wp6kY&o
z?t}FkL5t6!&CrI}fc)e%fHgs4s2pFiWSfE@5`fS2TRBSt(NujC6eLLst!6T#i^WNy
zHkrmN@wP#uB(I=2R{EA$mRG1Ocb=amAXze~Rb(zKmL!8pGQ)2`tK{HzQ{~5EaR^jv
zGA9$mY@skR`?rK?G7i6m0W!`TR1%r}#ge>1TG>Jpc5@LR$Zr6GVmNCCcn7Cr)zs9C
zvx8bhW^}Pdc2M7v4Q9=f{DDjt3Zsh!`2(?w=IGZbk7cR4H|u%_HiYGLpepKUt$$QR
zO?cI_KsRJ-&MzD1EZuSLH2t(2<}COyCmXWB+BzHNPVQs^{883XQD4yBMi)6zrcYnF
zjV{6<`WTv9+#;lR0FuULumGn2O$$afor$R5>QYxvXCjE1E`-i>CIYz!$swK2L=bar
zIrL^H5zYfh6zNbSg7^u7kj@$+h({2FbO;bZAldUSHmankcA34e{d`v4Z)L@)4=PTT
zZQjd@a8{gjiiWT>^;7*2S8vpb%uQ4+NS}oqly}<#IjVFZ5^!$Yx)91qMTFq$BB&-6
z5x@|Z{FIZ52<JiByxwiWQ@s682dY9=A$Ly?`AwD^Y~9>&;wJ4<gN{>b-!v8JXbB1~
z=|m`k2(&#@cUBW2tw6#^Z=;GJ-n27?>h_!f!RhIRg6MvM1M&JpZzA)0NBizuv;Eq6
zzpH2-&O7$@INJI;xQt9+F6<eLlQ#6SQiyVe^e&>nGY8*Pp6UFEb8iJ6oCkN^2n!j8
znD)>^%S<}}HHVcUrkz!XngZ0yjg0>xi2q6}by@!FUa7SmA~12I<LuvP;e3`4(VjnV
z-Dhw3u<QP2m(|pyrzHoSj@<3Eq@kpN>QQ5{dUT$Oa!_qIhr$UxNcRcS6OwIp<AEHu
zGHSPjTef)NM-_8RkO-AgzMTlZ;4$r8F>)X0y7uH-y)~p#ldu1b&*_BPPLe>|E+@&U
zC7iG9>qf<kgpksSU5)2U==ET_?Ow%F85wI2Q1$M)oyxJ-NjajVieELzZZ^<;<dy8D
z$>K#`s+fHPJd(V*%Ol<4+Rq&RlSx-rV6;qdEH~}6zgjA{gRT=|K|OPoDsOa6UZF(S
z$_~`N-@oSzq6_Ij5AC8Xf}Z-yUU^PClH@m()u$V!xfXa6g2{s4$5d$`d{i;&jx*1H
z!Qfq}aIIDW@xYHlJUeRVYI8&XSy#2S`Xy8C^GeBSt7nd0G&$X;95Ii-lrNuZCoIF>
ze}{7Z*4jQtUJ}El3AGWW?a2(~u?*AZSCDJR9*o!(PUJp*U2gyG1%D8oi?YN=8`ff)
z{YC1<&nBAePbny#MsDCJrx)tcnij9=O{vW6n|!=Q6Qjpfz=-4p<I3{^ocj3y{S@OD
zE-)KRibEt0*_eJcjFRNVd%|8|7+mdlUiN~s$%Ova>Oca=-)4D|wdB_KqNwETWavCH
z)bYRz`%7^S#r^<>rUNz(rz#vyp%A=b=`1<lMbmJ_CAV<0x|prXa;!GgrCj4sL_P_z
zT5di~N`{F)4AI84g~;Z(D}^Feu5TW#XYc!qV}C_9jgG{3XfC8l-&yc~4sk&nrn!D2
z*4$kuX>JEN!z=rm|K*=6`%&`1n@`Kl<&(&BMMurJCr8Z`j5V^>4++gJgw090>nBmf
zPv&6Ba!P;jNRkbCs$`cP`}G{@Bnvv(Ga^D>b@>{EB`bqHPyHCblRZ0kd5k1=fHP9G
z2*UtJ;U+vDDU%>+39-UWDq9}Pmk(Cdua-0nWi(#ZymPa=UXJ`H54?=lIG?)n{_&%c
zvQwYDQ|3T@U)O@f9HY<tq7rk(VL!5dW-5wfdzrlBz#1p-@|J1B)zoypg@IA!@i{Fv
z&NSsDDG8I<`Og1o=423sD@?)-9^956Bs@KR4o~HAQFmLS;-ziTC~Jllg~YlINyidY
zq2^L*<0Of?Qrs6!izXR2&B8aD(42ev%S~MIQ28y<GU-)G45sX`oKakCdKULdIbe~<
z+SD_)+WfrEX8-*q?N{f%tXLl?0fn?QEZkK)$H!eSM6l2gpY>bM5JvB)P~nMDN2Rml
z;!4it7g8jPwkNj-;uXu<#|fZ#rI22EVoV!d45fSwL4wiU28ARSH7ifI?c=CYOb^BF
zn5aIuh8>R|<fjhqD_Q<uDP`qt`u{&W<=s*pM#l0kjm-i-Vmd_R3>&)f6-<>oieoQc
ze{cub6a}L==o(h~2BJU>{nw}BSAzetRf5^?q7<wC_Gzi5RL}J;{(x4r-pkOr$>w*t
zJGK@l&DbH3ban(kTAi$6b7;f1AlXOjv&_83DEX-&RTYu}{|oxifEDjZ>k4?<wOUbk
zsyGln`;P<y;$yLPZ})7wcWd`-@4n<jjEW*)h_$`Hev<$S7QzH~Uo5rxzM1)El1xJJ
z%j5I=G+(Uj*U!<9>C<S7o%}PIWQ64u=bSzBXCBxXt)iHs2k|izzx{$GO#bOB)QKbR
zzLWS!Eo(u-T^^HsgFoh*S>O!;(h~PP1pwW`Z}A0Q#VO&VV63n$AzGtitPD&IdFtX;
z0(ieie9oDZ&=Y(#$}^I{hr2x8QIqj1X!v+PrySQ^(yJ+;2s;8=4;lzT1I%2xmyfU}
zC>M_fB>3d?;vE!$%#GAj1IE<S1I1ixVD-bM8&WGvC<2)qX=nh&)HMKNt~IdrFj?G>
zNv%kM0Ay^UApi_=9gC|+`2zJI7p__~PzV}erV$YobRClqDD5<j8@6;1gso9I9U3dH
z0jRD895v9xMvcQ^O&Qx@*66f}I2B_;YB^DkFTa8?DBnd{IkIQt9Pw1{nv{_k2B>Y(
zM;OAn?9EZajWMDZfnm@Evk*!fgF>+c!9dsD1`IWB#Dp0+!Ek;vF0df>sA(`vMU^jM
zQ2VP*u*0_70yZ%2C-g&Rqc2LOXOyffffBkVJbG7#3#hg`LREKEHH4>#Z>%wsQz*e|
zMZla<I+$wGpb{cbvR7np-7#6#k}i&G9PP6>uQL~r-Q9ig<Db)S`}toOg(;)XYR}z!
z36W2I?3H5Y&Pz4<9xf8*epjFBxsS=un3&5IRl`R+@Sa&XC)Q$#-NP~EbRyOmB|`4M
zrmyPZ@>O9;wMkG>#^<idKozZpnlR(WTCD_{bPA*;t!s4c@-UICyDoEUnz%|N<uJk0
zewARTKvtk*592hUF!o}sJ5`_Rxw2rKWZ4!P#Q;rmJsr9PTSf`KxH~Mtwvj+(t7)Q-
zZK6*VjZPmMtWU$+Ve&W=O@-R@04)A+pG`z0JR<SzAYc_csIh<SU>%2P@=h5?4=mlw
z5neog`?fg#Ia>b2mX)zI#CsC5)Rxl9ertwSVrb1cJoD$4+$8r7H21Yk=~C~2Q-9^|
zu;e39dNhKJ@1s16$!ARxWWMW&1C5F32r7C*Bc1HXY|A<OJ4|)gXhAKF>D>2#ht2<K
zo{fR#&FW~<e-eJ788h84?{0LqW1%xBdhbg&1TB16-FWrhG4Q*~23YiM{thdAqSs!T
z5$ny6v@Uw6?JBST9eHuXp+p|n_D5mORq>;Y(p|~0gfW~G*GjU2ku<Z_%CvzoT^hPp
zmaSg%OS>?vTDEW}i>|8G$zA^z*F6h6D<ZyywQCKD;YFf$<<@u;z#P*rJ)J=(F#l>x
zXsd_m%^r3Mm>HC{+E!crJHXy9n5xHaqU{Qq!(IcJI(xi{w#(VmE$wEfuOBxxu^q1d
zysb@Wbr$fp7Rk#!lh?ZnaDJ`({*+I#rhPjnPxf&2d;LPgPMjlpmrm?KkM&n1j^zb+
zCjsqs8O_CLgmLlu0xC-}X#Mc!Y{?%x&;5p7;Yu2MITzi{+MBB%7wy_8y+yQ+lJd=O
z5Urap#}2)oyWfvV$cIF`O`{6317_z7aBY&BFX*H{x?fp(%qB}3M|+vq5|{%0?SMxn
zUbk>O7H1;8^P;P@)Y3m!m&od9)G?Wn<n=fs5zoa@DUNB#EnA+I9%U`_lqtT6qI+dx
zI!@&22uoPW8~lxZvLu=KCU^EEbDl_6UKCq){W9AZ1(r%$^)DLQ8**m@z9JvZW`VOU
z%UrLE-PEN%>7F`Hdc~ol)Kncag5zpMS@pd-g;WjlOgs;yql~5Og_aBe0=G%vg-4dB
zth$Aqnq1BH+*5RJPR;^+z1DXXa=lai3xCJv{*-m&4|v+uT4|S}yb?b59~n0FV`F2F
z@0niSwtJTQB_~2@GXi0f;I#MG-z4BdD+u<qGkg#fsj8=zR8<!IIJsMWyAvaBxXvB(
zrv%LcZ2!!t025w?`p1d--#*Q<e|y3IFhVJ#K8}gcsDaQET|zPy3`l$@ToWT}?}_&+
zP>-Z3BmpK-G`Z8<W^?0d-TOYe?ft+eUni)SW{EE{A|S9INXWQ)&qbfHA=cK@I)%+|
zTPWW4h{iGTJoV&1`0s{4bP0oTa>W)M)xk`OFdv90!#D0(XR&w6^n-B-QP5o-EFuI$
zy*uFYuUinLt9k@P5L-K=%Nq2*5Ehc8v(W^vsf;G=hA$+_pv!s~=mrvCp)ZHU3k_t6
z$YSWWYb;M*x~f1ZAnreNcw*4mxRMp)1tD23UZ$`(j3#G9Bbpc;&}6X4#|B5}b2tYP
z#&8Yuj=E*1jP7P12qUpev*b-FF|UH4TiSem0R|5Yg3y=mb=5mj5nzK&r2RE+$yHfi
zUAy1^`|F>0`iw1~GEk|C4M;#zdFK{ihN(4`mv*WfZdJaJ|Gdc;o_h9os_)FhNZy^X
zz7=#XdcZc1LO*}mn#jv><LCx;cqK34EEC|3Z+iIgGm@Vkc1?u6nN;4iFRJ`w;mF1K
zoB4y>FCF_6w&io`n=A0mFW@)RMS3ml25?n-5gJS9hKocxEAAL}tAm&alQ@k!h<o_N
zNGLi6oQqgkQ+c@zW+#U%|65`EhS4nb4nbWM#3Yc_<xhinP<8MRgXn)&6^TUEFnAx=
zNRvz)ToQS*RysnB7~c136oD_0F=jMYC6Nfq+*j-k=kfs#_v+_Yye+V1Oj7ffq?^CK
zH>|8SFh&_NJaxMT&dCD2yVWhnuJKiVo-uL+#XgPGFaoUKR-@y)8XfYzQ?1NIbt)M3
z9=1<3JS(5c*}FwotK5;A3H*}JK32#e<QU>qtluxGe)eGPcc~@SxQQ#0kzNT(3FBcR
z!MlAa^-IXZSr~<4-IvHYjiF%D$47musAZq*+E}%Z^1GYO=fF@eqI5}KfCT6)23xxo
z)VQV)?5SYMSQ<z08qOk6l|dOQ7oqtyU?N?iUdN#<ij8TEd4dUBU?If?&8bqF;+0y6
zlk=v=RA!DZm&hBFSt-C0bJ<oAk+J6HunTj@XIj0+gicP#fD26L5^rP5!Nw+7rUf0;
z&D9*1rRs#&l-SsFeS3uslv8VwXOM6Fn)kkEFtCrPE_;=bG`5~m_>2p}-peB=rR<Q0
zENneoIc<5I>P)noz2u1r<<mO#l-o2Dd4|wmG}mv(7@n-yc{idH?jUbWUWJ_{jQsk|
zOpCB2$-0`c9p-cmSm*g(^R#u++{<xCd2ee+4(n$7>u9sk4`5ERNc69Zd+~e2|Cj_P
zkQ`S~&c*0jKb$0KmZNrRP}guBq%2HCCEH`&+HjjY22WHsNqksNC#S>EE{CCgEDUQ|
zHFoKw$`d|KR=|X%IyG&<eo^O9?>Uji;p#2VQhi%J5=~TeZhc%%nn**zEQ^3^J#B3;
zT{7g$1!Ht+6^B!Z=6ZXlq@ZzW90P?zbrK~Q=A~iS(<}v6#*o%JTMjqNOR~5^l<h|}
z0ehsc`g_6Fy0~g1IRz=3*S<6cN2Y0DNeM(hJ7r%-PQ5Z;w6*YHeTuRDoP;!K%hzq#
zC#zIe8uVw>0X{lkm^<90F*M4!pz$u@6wI&R$GoD-aPK_^I<Lxn`mH`O=drM_VU{h_
zw?YJde?Q@DhT?%INbSU}#d?UWD~Apt71l9j$6^Oc&%&ieD_~ud{P0Lq+sw{|Kh)^+
zUEt%`XDzW06!w~gd=$TbF8+MIuL`?ghh3+X=60`4M}A8Kp`Mabn^KS3C^*|jdX=Th
zMnOv(o$_y`or0Ej8Y)3`1>&fc;9M(hmMW|41TF2<z|EDWg0>-bI9X_Bt$9nOPWq%$
zrA1rwHBhNi*vt52%Q%HNY|VD^9=4_*r$ZT6A|#Rb(}15Ft|u12<pgb;q#Jg8DuVNk
zko`t4yg%8Gxs3SG)-2)2D3C8J>?`o&V+7?JCHsPwA0lYG8L}@bsTmhCMq2a*72%b(
z5pc42R|sLXk=3w%A2emG4fG~uwF1338~t8oJwPwopg&#gDzLB4#a^y=2k2L=Y~Q5*
zR4DLzt^#jc*OCg8e2V{}TZ?)!tv5QIy?o#~pdarx7yF!M%m;4K#0TqMUR*T6-tj%r
zyVY$yXrm0;!Z?9nXKg<@e#SUu#iI8i-Eh0TW$r{AUwLz8nxmHCj5J#l=)9m2C(~)3
z>@A*>!UjB_?p0EmVVqV_M)j0~If<ef@s}0ka1yLFm2dCc{iF6(k);AIk~3$lndQ5k
zGPI94K>OIpPqY<WtZOPvPyWn_PKJk54v+kKRe5u0DrB~D?)6Q}9qiC2T%G+GTwL;%
z<m&$k$<A}a$s8^#+7N5=Y8Jjjs7{v?HT<`l7~>85-S{su&Mjd}VDAy<@6N2&pDL0f
zO2>!>n|=PDr*nxOW&;ia7sFZ?1Lu<GOy1UnH)l@jv{$D&t82q=I9Op68)N!x#i=tR
zn=OF4Rl(*lTeD|}kUn2Mib%%6(~dl{+UTN}4X&H|$&9RZdz(j<t~6=N<&2uaT+WTv
zRe#_1K+Wpbq*2TB2%hYE4k7;^l*!V&&gBEuDR|n=U2Rk1N)xT;ACZuR@KFR^c12ym
zRrgCOgaM)<!Mv#W>z^cmVr*u*XUKA^Zh2i~&N<y@-ZGg?oSXjT%iuCSO~zAwv}!z@
z4jPY6Gg*c0Ac~&cIddnMX{YIEjf?HSHDk%xQ(i9rgXx%Q^u$7~aT`upoOn^p*5B7g
z#peSzeqwR2mw)kp&Vjh}-gE5~XJPFW7irxT&699aJI7fR*UmAB>W^cP)$hj*o7T>8
zo7CO_jgu^mYA5Nq;jDI&Zj|b^lk~!DQ9DV0u?%V_8M1|6KS}D=-lZ6$)w1?>VxHth
zyxLhhvFp_z%V`uu;XhyrleB)8*iGxt*ueGT+Pg{f+KpNLz6`S^tG!X0quBN9cmFo@
z|3OW@o3r|-!dBTTYahX^-doDz+H+>*J%8$Z|9~dWyxQxTbsHw`wDu~{D!TtCR(m+D
zE}ObpP&<!3WWn@bjLz+X=#Lv@H85?6nt`7-FZ}dyXjYDvSKq?`n*M}^so5`n9tP14
z{3%QQ1+y<UzwF>9{>Xu_*LLLPTh4keV<%Z0M_GRHdRpM-e`z}gdt1i#GWNsN4`-UW
za93mIyvFX*VL`$gz5F{$Jog)-=EC(pc=Askob5nfVCo&~GWLe9Hl8@<a~7qnokmUx
zoY<qNtU}4>M~QPdVMdZJ(u%T95P45h$_}T?ny}b^VPBPLTDSbPA1;gQ>f;DZ8qU_#
zrTZmyn&z~x-E=z;97&$Gm1pGg<`sRKdCtN-hu%p%%NBVHJ(^7YL#CgyMMb97&p#_x
z%Z?<j$rINq#FdLjM^b0-)M-YUyC`P<EIg)4i>J~qM6OpbjwG+mlh-cfZLS-Rq_5+E
zW7NjvMlb*H$Q{jxz=@l>Uj#Ptp8CvZ!6dnK7wmXda4f8X>-DW8$@6#?w+n~w=6=Bb
z1N!zgkt5Gxk_oqwXhjP1o-m(PE{~Q(#*=6l3XdvpDy)M8H}&R6)8})W@NL4*^DiGS
zeNWt>c)j#gHWZf5k2n?w;=yFQu5cuU3t>Gx>QzY+3Fch+IC4mzA9az+?FtQe^`xh(
z%7EN17C(l8@3Etct6mG|>QpX<8_prc8E%@!)!d!rpZVh~J!0;X)BO#kxoN^TY{}g8
zh#H+e)lXknzmqt2SN{Qd-!rJMyO?7OboZ_-G#$HGSvYR{<xL2i$`ir^wc{k=HI&lk
zemG%o2T0>sIFgjN(GUxdR=MOj&cE#><wc!3Q7tQv2axr-eD?jiF&{~r>+8nbFg(na
zqq4|-v-VRr2#zLC<Id-da@t<bM2@Ob-!~o<bIxKw=;VbCvC1c@&)Bc89Ir;%@(@?w
zs_KAc=3+4TkEnxN@gG0AVR={Pd+8Bdu_3&uIBpV6-cr5ZE{mjdmiX^%Qdzf8jxXAt
zttBPj+jeo;+bN42OJ!Towl^DGj-;+9teD5u=Wwou?0jT#FZ?7unz}mIB@dzRg{yDq
z&q6oN;zM*hPeOg=@>oTmEod7DT2hl#*A=#ngXr5Y?dwwqr->D`?thH4-;K$;qiM@H
z@|;CczjR}`bi-c95F+a5>4AVQ4g|E>qI?Lb?H<kpVJ#N!fv`q?FgcKcA3NfZV3_?b
z`j`DKCd=DETo&Cgqg`x@as0(H*!#s#3QhMDXTk!1k@rF|qQEzF=<DT(&|122Qe3xc
z#V^e9!|;PaT*zD(TI9osQ_OqN1?}Qzz#JLUuVtew#h2B!9l`E2FG-TETRX*reB6}4
zXzDu{#g(!1Qfx8%hP0XZ?C*5f6Sr^ssn)%5*;|$yugV`EkYh3Ac261~Xo3UUY)9i`
zO>tOx8_TDntCR@==QzOD29FQ+hzC2Jy8>kaK5hL_U_pq(%4<e?7DTQ9ZAr*k6a{>+
zm<z_~dCkp)U?2FsXr^!jH^I%Adli?xH87p%be#hbG*2dzdKtFEYMmUPo5sZ?-}<^F
zA3DW@Yrh0<=XE?P{+XO~V&_qFdRil&B1TRDlB`J*t-+srT8@4qcL}{E(2xWj+gT5I
z#ic_2v;2JvqN70a|L@f6ZCOK9cKe`E@wKOuZs+0e>(9mT)-j5SZELdLc)i_#z5VwV
zy`_ZSoGwzc%f{KP_-%{X5n);#=0yu8DY>Tx4{Pp|Kqc$aPXY<IKK()i!F6gND&Oox
zZ<6+0D`3OkjPQt(#@u2VxUT%cp}>~h3mal5X6}=uDSU9#`Fbs^kjXKnKau3{@Elyf
zCRiNUF?#XV#7~xiyV@d5MF^W`rKK$QRlwnfxFA4EdK;oCxYkBU7}!~I>8i2M;;Qlb
zvFVuXY^sC~Tl+@Al=OCm=ir+Aj>Q4p)f-AZEto#tpkT_SPdD)#y!7c776(qBEiAry
z3|ppd>m4!r`tfUpM4sX~xQXmyao|MKi&wfC{Y-@L`PikD8GS{3xUCFmsFEgMQdqb)
zU*VBpqh$c9R{s`WL3Sl43i?PM8aDVI4JhgD1CoGi>t7TI>?n0QU94E`6*5-pP+<$E
z6ii7MW_S*+5pygK>;=7ewQW6$5bPWw^}|eZ#X?`G62K-u6JaHNj!86Js}lkg>~=<(
zACQfDQ$hz_Y6=$+o846?r?+V+V8d!{Jfd86YPPWqyqeS$uQ6^<9U%mNMgo<L|C~U=
zO~DT|5ZIJt%2#^Mrf@;iJo7_0kgVMUC3M*0-xN$qhi~v4T!V*L9N1ssqNaW(+wa`V
zL&LVvCRD}gBj4kd#HiM37uP?*ITtQX8oeNq9G#j|6>vE3j|51`*6@U;;5LQ;2?P5g
zURL}(q=4+pvkExuOGbc{^yLLj!S&@82?P5=E?sS{E46umz*<8?cXV<t7&?-G=Yi2g
zfq)KB%U1Gl2p1*SNBl}9-&Vi|o0V}QtZtiwP{CA@OIMR6TzJ&`vK94A9vV*7Pc)!p
z&HsfY;MV*L6bNjmaD}jW!6a8sjo%8`uphU0L`g&bU>UfM+~H7QON0x1#^)g#WKTSN
zcOsd=36_DIL54$tGe|95?V@Jl1~rw;|D!xK+$2IYproG>l7MUH5(NUg86!s=DL*n5
zaM+O*0aDVFcQggh6;o5`X~5u3lK?3fylJ5+xWTuOFkq!Lg$sDQ51vzNr74^vHDwRG
z+cI>q4BQ;{a42vJsf8=Ov?*LeGzQU&<T8W#Qw1Du8kYn}NmsAX6kJ=ckub2YH)3Bi
z$tk6ItAGu=@_<K_H03Xrf$NEAVejJ<duUmZUb@=YJf;2)PW_C6DVh8^o`aiyABzLG
z33~CW0Z#~okF)E@?J874hwY6in3DD;cn+?;DHaE|_XR&*ldV}PV1ve34P1u=hDt76
zsmGRZt<S!CVR7tFBu8$`R3(6u)+WNrRcK2*^DEzgMG$_DN0ik31Ixf`f>s}g0@q4v
z;cBfEKTC4M(oA**-MUnRhmE}<fl7KiB#?0J9if3>hlLAsJ8!*^^5{X80Cq_@^V+_9
z3YxdkOIItlOX{|`4vq;>u!q8>LE}31UnKpTser@YJrN)!+gE_5;Ciz_!oa==m-w33
z*;vw+SOFV$<pqx@Y04{>f$PZ|4h6R4U11&|u%x9Edpfx+wwfdwUMgD#0Se5g973ft
zZ3$N%cVCDkWldX|0c<lZ;aywn^Zg23Cpu^#*awO7RTspMjBH-DC*{Do5;~myUldHq
z)^>sC;2J!@;=umWi&yOxu3?%x?<yhNd!vL7+xv%tDQWK=o`Y-eJr)PHmtMSTuXr_d
z6t5)B70s4+Ui1gewq?p!!<$e$aLM|>Xgu6HF{NO^^+FD!n!Gt;a9F?IQmT49slmgI
zKO%ujy1gWjaIJnu1HnE^l&_kc5T+s$Ccmh`!zRCzK;=xfb%mZ0lx<shL`lspECa7r
z+BOaatdh2PI=FdTu|k+VJO?+>Gb|1qD!q86@!8_XU3OoMLv4KaFEx0$7GIG-B^|yd
zkZ>*jjRt}}mMC8}S-57~${~tlwk2KuqlgdN{FjC*>9cS_b$h%XG(oh5tEq<k0<=9*
z0f%!sCqPOj)JIcro6RE<25vOu($yv-T!ys@fJk!1&5qRIVRI7_sHD9qfrM*th6aKy
zex(faWP{$7&_RFN4N8Z`%UxT;BZ0|l3zuS>x3Ul9wJil~IB~+oN^|E`p=7;XC3INv
z4+^GSOKkV?9NfzE6N>{^CGk4rL-A50Npr50&|!0i6ii8TMtBacIk#9G*c|b5C*|?G
z3W45Z8Mt9S;85ToMaM9=;4{DXtk|_(eE%hxvoV%|n==oG0_TicxSAy4a%1a{AE%k@
zDF^MjB0k*m0~)HNy$cEp*WwV51lzns^zAH`9XS&vbl9R-3Z|q%Z+H%_Ju55@Y!1D6
zr4^pi53t3#&=&#QC*vfIUD-w13srnj^)(SyuJ-&UvGC3~yCEQf%MT+Fz{fG~RD<s1
zkwI%5#e?sSF9+YJ&Z7<<d=IPkCoJT@Imqm<zp`#>n-}N+4bByxlA6y`de18L%hm84
zyxz&xu{dDw<cd$xIti7gj;@Ji;D%}8P~ae`g{$>Jc%#C~%d6(8O(5Z>O1$Z3`x*-c
zwH*QpSM4bp2=-Q@eAV6_;uOX5-69J4I>U2t({+x;fwLvvFyB?%+3NnpGH}EEg+qaZ
z6mLe#3oCZtmv|0tpjTKNI8^a%qiz%guF@Ve_l7{i4R(kIf}<5b2HK63W_|7-ECV;r
zI~)oer1%_=^?MB!qWp`d;D+g<M=Ur}#Jem))oIoQ&%uqAVR7J4#Yc;rs8!rKl7Jhe
zj{<=s6hAc4af>&cD#RF|DY#KCkT7tZ<kHpIMkF4=-B|57BX^1C;HK&siv#CMxN_7g
ziz_zql)}OdH^U>r0ly+<XMx(LB=-%^!3}nW#eqYm7q2vgaRWIDf&BE+ReBu*&{VN%
z+(c9GoEjTQ7&uYFi(fl0o&TrS3db!H4L4q!00qY^zLh-4g8jwCXBA#5ElrQRNCIw}
zdMFS$Lg8g(`9@HM2!9|6xDobIAaI1jD@fxiR;=<DXbNtW10)O_=M|!~qL<fb3T~Xg
zkuY$a;@kPxQKq&8Hy+_RxRKssao|vemyh=Ej3ue!?&k45iG~~S0|5$-S$ubY=k?or
z?&*((7o@skiytEixXJQRAaI(9WvdBd;v=V@6;m`tQ*e_sL&Csm5?{!ks}10fNCIw*
zPbd&L!iBi3(k0|LL=tc#j8GtOgu-i2{X)&d7)ij5FhPO95oY4DY978I3AhoyqCnsX
ziDj$Z)e1X}SIE&jo`aVruOU9@<|K}zR~50IMj+v;)zLtpv7Ydf)VffQ)+CT{qqWdL
zaI`k!R1T#VQh04F12<0bW$$pVc+ul^@ElyNr&t`=65++KF-+BNdwFMQ3T~k1NEkRy
za_LGR>WT084%Lp$@qS_%xM})@LxHn|IeucSSn)6M9Na*!usCq2;+J@h{6OtALhlC8
z!3}kY#eqY;#cyk;?tJs^6|lj*Z=Q?m!r@TGw?gy6iWPW*=is`^usCq2!Ye!b%uUrN
z4|5U?H(;Lt1;;GDIXYwuUn$-IO~H+IfrNqMB$uv^R^lV+hI6HD``!}Ez)jOL4h7Cq
zf|&X!Ue<Uio`V}`hQ)zHeMRI+ZI<?iW#ERn!l8gcPMVbM!qky!Vkx16W7XsYy&VM!
zcuv^;LC(NW6>wPZHDwb9S@2K^9aj86+e<;#j9Y-WF8p+u#{1XcCoX<NIa%XG0UOTh
zBWY(hS@1#)9@hL!*)~U(oGPKiir?hB8-ZM=DK-mGFf%Fpc*vS<C3IMEm$K)XtoU3B
z9aj8{v~`&*`BDuY);z**Kqd>mQ^1DRGSY(}WWjSacvy2lc@~2#IZ{H06=(QID#&`@
z6tF?HQ=PE8oGN!}s({0K+k{<uWW8PVZDKO?xjZzSh+pU%zGSVJ^3br>5&G6GS?irV
zG_2KAsbDbVjJV^HoP<YJ0$6v5-abQC{45U*Ykei`WFf14R{;n0&Kl@@{ZzHHraUyP
zwN1J0PL|sxY*-|NpR0hw+4x1-ct{p}se}$I9ufBsl11OC62Q7WrFsWr&d^)A$ys=m
zhlaI==uO#Vt<Un%u+~??_G+@)cNK6@?_4Ks&!H-wn`-c|<~C`Q4Ow%Sa8rs5ey#!z
zr(=M>H$;|ut$+=y9Z_!bkoDdvp~H$jwdw|g&hT5O$Vqrqz=qW>DYxOtdJ`pdSn(_I
zZaP`?yD9;w+i&1+3{oZgO$BUNZHuz8j;yy!+0sKsKUYGB^C8}EwRu6Il;Ue8bXc+Y
z@bZtByhv$&P{fB-yGr#A#$<$@ljJnaRls4rA$|iRS?;p}HmvrQvJ;W4_gx7cRQza&
zuRzx?iI-9Q*iu4=6^l2rZBFx-Qan>a2Nk~`-~>mm>_GyLr`9-|PTBf)y>*(!Nfb9(
zG%d@3lFCgnniaBFr~K7f1LOtz1<M{c%deKX(X?`NO{XkXZj$L2OvT=t^?7@{4^Xy)
zD0*_|%$;ajxtCzz#!oEn_42=M!V(agUkNR*3{g(4S*X>&%H2IsM4(nCKb{+Gx0)Gl
zn#S#u{D(izQYH_&{=C1Z7Fp4<SeCJ_mb=e&ma%T`*6m~;qSYG9EcDXMP1&S4vQf|L
z?)AqfC7|ILOE;Yts?zz8%@*537mW&2Gp}a(hYFSJa{KsFlf9*_W$eG?Dy-}LFK6LL
z9QR2>u(@Tuy=4c&E>DU)30Ku4IrH!Ro7~ub;;_XsU9A(e|8&g)t}OorbD#e$FA85+
zoEm3wv_Kq|*)yj37xUa7tOxjdF5uxC)%J6sX8*H_tr=<T`hg$LoDx*JlAA2Qu!?Wk
zLDRABgAWQ>_LB$d2#XXOMTXTCa;o>Hx((BqxeEp5&=9ws(9|<%d}sW8==|_>nzfz>
zq%2<e;YU;03|Ly@k|p_P1D3j9>sYyu;-GabkMclx+mi%#Mu>Cj3=N+AMa#s@zs08c
z6tMVN{=T7jaX8g+J<gO}?!K<O=`EJ+JfzfjgWhxAC+O_?yX4Kh=~+xxc5W><alE-3
z{~y)z7*mmm0fh~C+TC04cbYmFKKDNo1cZ;(+Rb~`ZmaEXcfaIBNNXk#n#8W|ufHK$
zi--^wBs=$0Z7O*l^S*h1Jr&%}ZeDKq4WF>ZqkXp-e4ktoet;p{q%J2bl#Vh;8BU+v
zY@LSuB7dV7j~+fQ)?WwFFJM_2B_T*)NQv#tGnoFcz;x_^zd-jp+h^N(sJOGAQJnI8
z>j=d-xtVO=E}nJJYex5fw%i1676|;LFas!NXwdQgp4@o>DFTesb;y4o;9-Yg^UeOR
zV&N+Y?lu{k$2dgW9qqAqL&G_=77=it*My^h6Ck%`{vElKFW#5*84ZPr4k@|UxzYX)
zbl3p=X^c7`<Ur18$%`(;5?-viDKByuPk8B+#xV(3hWL09qWA?JGP0~oxjIX;HSe34
z@WnTW%HY9K-GSf><Z~He%&~GJ$l)O^Yj}lG9I^W}g$arbayy92lAAvjOA{E!y|c1v
zSXoX^>l*PTi42nyPPQzOb3dR|T!8R`KCKg!_U~*qs7`}|+aS+_W07jFQggH%%u#Yk
z%$tcN1Du96oJKjPYtsLPbWYk&mN9qhEJo%?9miE)#8tzjD#PkG%x;k=DRIb=K`T}S
zupp0LrjP8{<1I&CLqZXLN=<maTN77pk-n)2r%S}}FBFx6EHlT|f7()EN3oVd%*SM%
z_J5FGjg|e}$kTM4^v=q!4{RSOS!cbI3hGHor!z;Y!hS(+Kj~Y&(;C+mWrIAZ8LF=*
zjl^zIhG751E}OD|8K<8%(K6%qC$8drdlfGzg&Sj>j^+V#;ENUne!`5KBUP?@=A!-H
zwv#tTn#q%XHQ)M`85_d-;?>AtkS&^W^eoBxZ*9Y-$neh+8z@`Dri5r@ntD!JdQ;W2
zGSea!)un1H_b}0bd?KX(q==dZVMbUzHeJYT$irptv~XSYx@U%p`Bhza>&l{8`o0_;
z_RcPDtWxh&1|R#6u1S-R84(#6sh?Gd^k~qStm({VX@p*Tr}a`7_viR2g?vr*JnT)%
zJ?7P<9FIq>o<CNG-#2)u-l5bvc-qSE*l$2A3zwdjvfD3QUSsr(r~r7>X?fbpYcpn9
zS@pD()keGu<<#p!IV}M1guM!bmYSeITNxcMno*Bh)u0>YQwh5qq61xJvxsV`qjsZQ
zDuI_L=s{P?WD(s4N?|zYKzUSwJ<553p0ZfP9I9jLDThT+NA-Mll|dEI<G7)z{HcIe
zhK&xCJtgep3#_Z$DZw6lR5!|85!_Xe8)s48RJc?sYe5IfS`pk+w}Pf}Rz&q%U2KhJ
zx(FJy0@aWJR6r}vS6A68!j4-cWo_lE2s~*EtfNd7fiGJ|v5uT-+7h-Sw^DOuUt2jE
z!$!=be#O^ShEzbydC~7e`B4Eb+tt@rc8aL5Rq>(I*cY5>(J}}8zA{rp4O`wE4dq1%
z_C!F|nPwP)l~WBf$cMmDi&UVmd=!yU%SN~x)W?<%t)W~LVR4JwtEWs9QCBUh_imJj
zB6{4m%Ft03ioi)r8|w_w3b3SAuhfAuPy}Z!KeNW<zX<!%B5r9;_II!^*Hw7dKz{jb
z4Mnp(6L7Y0sW1B#DK|Lzzw89t@s4N=cWYaj!kv&Lfm3UQl8kQvp@56q5DV(!Et;sZ
zDv(vrmu(5%3#zocoa9wPI&Vlo?saawVT{raFmk7I`?X#Jrkg=bSqCurNW-#(hb-sl
z>22`2NAo5mCaGP5J9*!&fTHI$ricNKXoAJHBXsvj^Y=IfVT4v&$54OBmJhAa<|m<1
zo5yk(utaf&)G3Zsao+VuwU4uZ{~^L|ZhxY$x}6JCjSd7L@oV1d#Nzn#Rp#O}MbyU(
z$QN?g<~`lRJ>9B3cUw8tTd@qLYTqK>!d+34<O|FiJc^eff1d3iTs;U|0m9RR7%D(m
zpegyxwhr=i^)UPaKd(IZBXD6XY6N#dUQsk0lh>MDD`VhP@~FsSV+(=v6A_8d$!7{G
zG={1)Ru`A!@BjY%JDJ}DCnOYkB;%N*-e>uv?p8UMgxfV_mVJ`3XQ>L6bNWdh?43N;
zs~G47)cC!8-kn7vVVpXdVVGq3bev-tPoHnm)JD(8oO&_9epqffax(r2KO&A3#QqfD
zc+0ar(&-}F)bRb<&++9m&2Nxm7~!z_^v+dg=J{3Dfct`sJvZMT2{M8VgiA=<J|<F2
zD9VMFkNFI7nU($n8n3Et$R@7{c-p;KZFAZ<5T5%-_!a!I5NFEGh2%ooN&7`3+e@M%
zOO7Px<$nF`%0QqciAiXO!N{_oXJ4gV!7gW$>Foa67HsAwHkHHc&qe$1p!$ymL1T2u
zYF-*0juu?Xf|tvg8;|hOm0p6HI|IC)&RqAI*yX2_@we{}f7kObEH1TySU51LGh8@3
zEVYzSx-@@upeiKdEb}~91|UztPfyoeH>cOp4}QK(lg}(c;ku0Oq0EGGni1=0ilZqG
z#=%#X=YxqY7U9*?;M?SE@PkG6N&UqxXZL5s_4AWp(6p*_Eq6cy#~}*_7n>Q9KaN?{
za2H*0x4KOnsT!V}JW}w06TgE#ndrLayAte>?GutT+*m+tg5kKJ@wi<qzyt%S^^)HL
zuYz|GjD%%SH|}YLW?ejfhLiq7q7drF+c07=JT@jhgSsF!kfv3N*HC$)eH<PTWCre9
zVZbtsW-SzV+N>b^K%s8daxq0oZ&nDUn^z#)x?*s+W7e6rbbTQqL8Neu^z93x8)g7K
z3aW&@sJL#W6O6E;Ze(9ry4Fw|X1Kb6gMhAWBpm3I%$rA|*e#a}rW;T_vElI9$OqwW
znZ#tpd3Fz`ul&d>j^A4{*>6%b=xjLD3q#^6^kdK0N1fub>iK@Q5Fjg3wl84gpS}Rn
zsMN|H1P~Rdg8+y4)B~&(<v{?SiLU_sjxlNsmH|q_q~=crum{5%2GSmYOg*OHrbpiI
zLc>5P1%`3w3~pJP`JLMyfY+@%3~yb%vwzW^M|1r#bjPrUa@iL%@(^5DeF2#VJnxX$
zR1EeOo|r7ZoMXutvg{L%MS%|Sw?S|!Bszy?ZQ}h*<;V|?#p=CJtbX8GuU{~4AtXH4
zIIPGq5`nLFDeLNI;wxu2ev@mH1G{7s8;;YNDd#*WDwf=}+CjESjM0_$U6RdqbLDME
zB)g7C_PO^sR9mjJLGV(?aDxp_DYfc6$eH)amKT0$AG^1ciNE^sN=Epaj1cbn3W&<O
z$uNRWaGBpBaK-=qH4`c*+OFlvdPrE*E;%6tjo#IerDbdErX~6nmu(t8>Kj)g_6IaA
zJfoM9PCRV{dU1qSc63TL?#+I7+Qa;G*ZjBvSWd}wY%x39_(Z#K)pR~vzdDtiakB)I
z=lJZM0&$m=EA}1J-cPxn-?CxlnvU|fdOsNYcAlCdI*Cc#f8HI8J%;#Te9+s|7gkTI
z8z;0%&;8HzrITTTy&F`~SU+x`MB*GTd48m*b!U~}l3JjDM2!d9BW4&z?ut5}59kWU
zXmbfi&Cy`+MO9!dh2q%BkG<+~l4k!O1<_Y1*O8+t_FTU5KP8s>p?Hp$e6z~2I<mLw
zea|d^q0Q`)-f!@G8i#QJM_l-0Tnisfi+(Hr)&HiFDV<~TKc&gG2j)-<FZh3-=-i^i
zfdjH5c-qxn+j8PK6R!V_@DaES37KUpB-tc0o7o$cumyPHQ)HPW`}DsKHkjZ8ghtG6
z)iT6b-`8qMEvY57(8J_*HN9n**=%k;ee`}_PJ6$Qm3_nxp){elY-Ay4EWR2>Ox{qI
z;y5P$E#tp9$R_V8wa5J9fsFaz|3hEIdnf=+_F+GLq~vfoi=&Mg`bsjveVHw;pRHf`
z?!|TfKn@PW#B(!7gLvUS%74C!EM9)OxElTZ=k3qv@jJ4;gc2*xBbCCi?lH~CBxW+z
zS6H@`mGx0=!c?&Egf21+$vDdAb3zSQ{(u;vQ4nKR6zu@nK4!T81JeM<ta#?I<b}k}
zWfDbr%>Ra_T-PR0KHKA^IVm8GUYf@q%LT2`yI+4VejY4HOlaU`hOCAh1xKSKkNqu)
ztP9^CLkLt?>#P;=tRKWHm4X?g!wdcq%yLGw(Pk`S_9Oo|mQf^d!~XLhv;41~|1W<d
zrHO|k?9s$Dj3=Q`-ogluPD$iUe8QX9u?$i-+(;R{2f}h1i%J3pYQv#fDQ1RwkJ$s^
zzmV7i#C19BD0zni>~p}sgV2XV9B@Ry0xuyS!vIo|0`e(OLm)_LKCKHH0m4aZ42U-r
zc;9G}r$C?qBauDfA3%7#Se7;~m*o+7DIqUBU8Tb?df#K8&`fmw1=BE0k{7%r*e`70
z6w?<%$Dq9CMW&aIX{8&#YNfl5wbFglTUEa4ExXBFE8UG=W!~sj=B?h`-BF!%VzjN7
zFV@S)2UA-4u7Z_bzJ%%J`_O8rt?NW@d$=Kb^*K%Swufo1H-Go}Oe^05iL~-PE<??H
zdfUUJ=JI=@A6ogoXIi^=`yywFR>BdE7g`B<k7Vj5w6qeAL(P?D9Osc<!dJc1KYJ3T
zTJ5NPlO(BD!fCS7TWRj7<}$padgm_oBZ&gNgbeG=p>SI3By_~$%d1|-SUV$s-_y!C
zqSzyv83}&T%6N&X-l>ywnS@EKnK6p6X2v+vtW}Dc-nx1ftTbByxk#dwaVi!{H8V1A
zsh2SiHJ2m*ndr3u4<yo@$H!%;ossHh%xBseQ=)Y!=R5_Wuh*_VQ5@*)JHE$(<{tU)
zCDFU;%Nc`EFXPXEgj$`%E+3O?UZ-*8U{0&w$Q{2kLbX;`_u+!l<V`Q7+)JgEl24Oa
z;Ay6$xu@0Gx!>aq&$U{DzL-b8=$&Qt<-AUB@7%v4bDW1-^Eu!%Ef&PN)&d<|W2W6A
z4F1YV#x!@-gGUn1b$hdhg7gOtwG`@RA6{R)8^jBX;x}!?Vy|9FY#4H1E~0rzPP|9$
zwrr#pd1w8U1}n^nd(VHlj*o>_MQMcrvu*+ggXRQc=jzcLmMe&ZFqjh-L}YMNd^rL)
zV<f%3EOX9F(NM1<pM*ig%b50__;1h1u%$=gs(gIFMsO(coQ3eBd=}6b0=CFvKc+Yy
zy&)Jes+|CfKy<%GS@}(Q2mvig$ftO{{8T*s7xM9zP`}rmT>ufD*NtqCo%sCSpJ<@!
z_&Xb_0>be}Z)Eflm@uj-?I(_l90{bLxg0|vIo2kkEEfL2=pkV+>S&jcwCk3?&Aqk*
zbpk{n0%Rtt)JQ>VpzUqYyUZR8^A)P=aS9Q(`<-1GLKqn)sII$JGN?}XWYie(ANM!5
zb&}XHlFT|K8A?H(C?O{l!|N2I^tPW&1ixDZc^2)2B9KlI`ZuDR#v!y2>d@lD5rYo(
zyz%UsGfUoyU)e{yK1`*LQXJ^9?lIFySvjEtM7ncM)lE_{4Rh~OH5=<bVW&%yvYf4p
zS)i9xbmhDQW!GVXHRo5BxO0PNB-Bg1K5%mu+B<p<+9OZ-ew|kwt~>|t)kl05-f7Ox
z!uvqxXW<n~iD%%I`+CnpEOx)1g;;E8JPWbd_ID0qwQ=k`%x^e2OFLGZtj@$NB2%1)
zInK_a?P3-5EYxbz?kv=5CG8y4<x0~zxYz42=OEuKjp$|H#DFp6){V;$=h@k0ux0p}
z(qETp7Grne;8^~XMrqlDV&ic-o<_|<lhpnm-=%PH&L{xHg9=u&gKDWjT}Q{4*#UM0
zu-qATH~U3A1_v#j1z>14tU~)T;uNEBhyxYF>X=|ApCN|=^2h)#wV0Eb{{oD8OIBc*
z$FK43z_}dm5v;t|4oDa{8UM}b{RpyP7I0xdKyi(0v0*T~#S!sAfh`66J&qxvh1<>O
z2~TS=4g|%OBCCN8B(5Rky-uh&MhFZ1fa3+Z5o_rgD6lCcE;l*BBR|oPQJ8oypvcaY
zuw~*u<#d+JgKP;2ZW`azFi>$^&_y1BjE}$qeC+}j-f2KYSBN;7gF;S8G$Ww-?h7ez
z2!qEAKrsgr6WAn3P{4u4CRUvCXF;Qan*oU`k28Uz%FX=XsB*(T6sp)}Ve~{4KDpz|
zgvV8Tr$KQI-Zhe75g!*kum;!?fdbab0EM>K(6U1S#^#@ePNvY<ayBOjl;83+*zo#x
zWaW@&Fyxt2Sn!SD@TKWiYB#uEZ0I)QT*rKH1Buv|8HZJ>#QdIt)`C9A19V17%t2`-
zU_k|7oP&Z6Pf|T4s%%`~sPgn6DC#3`q?qLtv<3{<rUeRB#Kkpw(t2}fxH*W#b&6>Y
z^aMwMn?rd5n=MHe{7d{#Oc^AV)w_rnAt_EkotDdn9BqqO?+)accsJ@XD6n~v0pl@P
zyzwh6-gOL%_YJr_z5(kGY_?zG0qgGuSbsOb`nv^|?~a1v$(?nufH5%OQ5PK40g4DR
zuz(3{r4eClVFBU1VVgj-z<@chgb!dNu1)M#Xh7gn7P}ci0pVs?mGGjlh$4O{IHCoM
zC?bFYBf`!8Dlt4^5yjLO7E#2gghmAJPt|r)SVV?_Wdz(TQ4ItM3>kw%$}oqpkSg8<
zETr5+3k-SGwQco~aNgr;EJ0XE87vSM5^`y&8VU~<QbwMGg_NP?pdl$ZqzDcN3n^o<
z0Yd`1M61!%U?Jt6TWCnQCDdxbGf>DPq8Th^u~{D!Q>}-=Vyd8Hz?gE=D=cPl0s$Bk
zaBX}0xB?_*8D$F=v^?AZ3Azqh1&g{q3jv8*IphEXyE!?aR%_%Hw(!`pFOf$Rz_E?;
ztO2hZ@Zi-W9nj#P&uW0<Z{JA_k1v&TPl+FRaHHZ4{$NvUrimZS1F$W4YmPy&=mxI*
z;ac}l$bdn)Ho)~E-i|>g<i*r??`AFE2`}EP<vZb3n6-R2n)yz62TC2^NiT4$B|PN~
za&?5Ky}_!M@uasA)iR#+cAz@O6W>WvOL^K0I~piYd4EPN<-O>F^-`WT(t91{spECm
za-KL~cP;0MqdeDfY6x4aXhCD5Zb8D1zc{d^d6Z;n9<^ASM=h4dYlQ0vb#y<L{_e-p
zdSO&8<!SH4siV}=7g)N3m@C%P#J4W6yKQAHsEqh%$K=gyie~6$jPlv3@O}njdxqT!
z=W;lN891N_OxgOf)R58hNEjlISED^+Xfy_LG^uAkc=G4bpFAbUwJ-Sx|I?H)a{2U~
zc#QaC{@;P3?P9C}o{JjL7#hP0qO_<8mH4m|RljO8EH;}{SL_I9S>H>-kW(7wHBF+4
zh$PCy#pt5uZ(?o?=ln+`k`=fk!$bq@<CH(jtO%#p6sJlz<}0%P4N~i$Af4Pcmb<kg
z-Y|$+B2fnu{!NgNj2~#c=CF~Ig@LC87ROhVU@G+WxD24Zt6&k9p$yvHS3#<0+<2jR
zj4)mFMDa}id+IIhg<(oNg)%9~T60nxt7)A&MAQPF)JjkhyTIrvrMv}fX$&dJxIR%8
zRj9~%{jF7WXr&tO>ZQ!yK!5f|S7_fxH8L@3Z4u3;(lE#3pDD>QydY!IouH95<p1}P
z;c_*3Nt6a5LGo?hpo-ES4OA5H?F^6pMkD*JD)-17p|Pwhvvpk=>QJVfu!*_wb|rC%
zd|XjyKTC4zk<3nFuCzP;F*5F2D?^9;gE_BhGwi*b!6x(@P44O#lWX=WCU<x`lY5K)
zn>s$)?y|$|?&|l~)1lR?rM-FD@>m#+(FE-nihix#b&&dKYa6<Zui&@Pr%t5S8W%tX
zN?~uE@n>Uh-=mRpyPclHWoTp1CDODxhXNNlGM9!SM&+VD$3(d(`;|x~e5~H%4}c-L
zsK<dm6sToTu;az7LEM&7+^(>9eIGz|lDMst9M*P{V#L&|ZMCWosIhjnmkMz`wWMjf
z>8F~iHeK7rJf*t#OT4~qXOrx?HhX*DkYm^1kmI((A8_Z5y68b7Z(sLNWoYV;DtDT=
z#bq|i`B8&6=)kMHrpB$_QnLrLyl|$ejAUEdzJ7*38rDJ%H<0QknO)G&7t8d~?tNyn
zTJYHhe9{E|>Bg8oTHn&viHTc%JO^9}(?^X;nSGUG>#~;?0`IE?>uX$E!2K_Smlw3O
zfRnF+SFT>Ehwtb^%(4&J84ethcpwK|Urla{uIqsJdG8X<f|xWXac99Ike1Ly?kHIB
zk)Sc)gIz*b1hKaS`TTd59Rx7sIaHoPm8{Dx>TJ734cA)|?*-*+2iuom?0G_8zLs*M
z<qWmz*+$y~$ELcGEl^9%loD)O?uNd(?=c+gc_d{BXGlKic;9^we3ZO2zoopK_JXj_
zdT)8%4fr^U?w`O^v$Bj&qfjyJlnU=iW?6FXmCP$lC|JaasA4EiVv-dIjUCA#<?k~7
zx@kxFV@A*l(*XN{Cqz*~DTwaM(yv?aRG-H{Sn9KYc+PsY5H@CvK0Hc{;RXL5%yL#j
zUI!t!aN=p^B)OQ^1sRfGB<gdkOy;&sje}P!Ni*B0Norq-5Am%HU8sGc;2l}RvpZV7
z*VnGZn^27A$i1cBBQ|C}a$fU<k>R?G22Y6s**sFd_v87;ujl3e#?H%sb6$RRzVe(B
z6zB8KEP^<EcdQ647TfRxJ~q!O@2h;(e{DB<X$Bs-iOoaIf)z1(*k55j$>b~wzSA%{
z+lI-hGfb^eJG1sCOEiy|b46zPLVRn7Z0PBaN8Sv7oO1XxX|<gW?|9g9IL*V0EaRQn
za%}XXJmej@_^aSDx)ifL>^LMF=FvLuUj<nj;*Scbbrh&0msOoh`6<5_ur`Pq8sVMJ
zx>8x>Z2<54svVc7Y|6h23U@!nG_7{?@q4@?l-a_Q*zStDA@34uYzrS@JN-d9Y*gQ%
zD{mXO`+mN#K~VTg2c^^0=E9Y#Y|o0lcf+o!z8x*wKB#41`2MD4W8dFy*|<w-HkiWZ
zZ5mtsta@pkN$it%RUs=gV`bIk1L~>~eBpT8AAZiKLN@OJ$SKe(kv$HBUv@Q&{%yjR
zf!cAtuW60<_ZD+erGv1k;agsmil}-lz~T6nj7{=d@89LL`Cf~-hcP}poPo2A@@G-#
z4Zggx0ylUZ`Qvd}7Ya9T#%SsHX~C}4-e%~lX6Qp*53ZNfZ0$8@8gi6_HD13j<@**%
z=2eG9SHW;=IlL0r%2480oRU^d-pZxEneL^&uKfZ1+NF=DruE8hT~xDRZ)f2*S47j!
zg7B!#Tu*v-7F?nKl4g(IPw?xo{RH9fs+~it(zvnjFuDh&kBp?svbB%6d_u{b_ru~-
zelIuT+MOG5D;%FLPZ#OqPJgXh2&uY?lYRTdos_{r1BadDq*GYgZf%5=Svw?y!}aR$
zmvXt2{0mv#!f4v1yS3}Rg+N)bR)39DZ8wN==nO@r7k_3KBZ__*h!6T@ix41Lr@+Pe
zhdl*u#p)M9kq^jzi=${*`h7CqOi*Q1(zYBRHdpNU^{3fucU_YUf7Lp@Z<;>NkhjE#
zQuR5NS1wRJXRGdHPy^X%#`Ywusv|pSyj`aJswv!e|Nq)thKJ95*15YpaMQxz)20Pn
zw_xAnkGmSo_Fjd(8_fa3a)(4I`#8`_|4M?g)L-^2^__%^L&{?(^}da0kP(J9RZX~?
z+7m+Wdvsg&JvNP3tRKW18TT#IhW0#|+j-dPR4+RfS8hV6w(a*lOSvxX>mdcb3(!)J
zjb4T$ZvMR_CI1JvGNd}TCDI3Y+PzoXa+@#|oc<9YZhj07nb2um*LJ5#Uo-+_LJSg>
zL>l+&E6IT4gxDl@JeeU}q}_8?dyZr{n>^l3#F)oRYq2)&#y7?T1bj_QqpC?FY9w$P
zO+;Wp)0lQ|CPKclp(WP#VqM|p(Ghfoi8H2Ui9$f|U-|9}JeFY;Acn8V1<U$qOb?fp
zSVPL7U??wglAVF|G|AZ&68EM#mDf4WN=(EKmpi5fB~}OuOwLDk&di(&<%}Os=VzE;
zmM7fQcAO%H%7E4+-C+e6X&Rb#YZIt}&q{upm3$B3^VQ@A?BjIBJ;O-TInXp0`l-Pi
zbGPtrujBfMk^Yk(D@GGoqJ&Y)o>z#3Aj2Z?K9fLY&=GjO1ky%~;|6}J?t^-{#LP4b
zN>}J!(wQFu@N*7zdue80!y$|2Kzk~EJ=4qK_0&T9<z+EwKX$o(F4-e0YTS~kA+M=q
z7xa`cvQ|u>6@syBif~B=PV$g|1x8#zN-z}Ct3xO5utCJKVH15+#(4&t_39t473!Gm
zgc2E_WT=%`gXejAp6nz<z*t$C51s1#QBQ|P`xTSWipkJ-u$y%IMwR&tbIcx9myo9L
zXWf$;yt=py?tcIMTF!q$nKHv*SqkS8$91Oe8eo4<aYP%S?CKUgpzkZ!xrPoZ3Ys`E
zeZnaS=u=~~_D~S&Kpb688;sU&r(%+(6hK=2^O<b?R53f0m$$jj($Kq(wC(EeYiVv$
zGfr9Kzt{6dUCUIRcYj}xHKOKl#~K!3x@?3W9c*8-W=D7_h<88`@3|lovH9!qxSb1`
zuPRc(WxW;!PK0SiM9@fnK!UQ7tSk!Eu&rVE(6*~U4#hh(JU?$D^4rjCf}fhrAW~tu
zaL-mLgK*W(s#KW^xxJRryLGu@v~0;W-blkO7{=jfDL-nR8r<L)^ihf``G$iMRp16y
z`cq)7Ao!P8;CEg{Z3M3i3_RjwE56^ZNnlQ4*izg<hZlLW3Aa&OhP62sgp={dHWDKY
z1N)+>o&AzpyOP=vZYm-gP<8HZ)!7xsD;03yLr~-be9J{B?~g}w@>K3yPNc3MM{M6~
zNZsr_)$ERsGHS!z{CWx)N?Mw2r)gxqL2QLtczhOnmi6>Pjg(M<^z^DhRn=;0P%CgJ
zESV!SPNDOsrUH+o<Fyie;NH_~?`PYqzo1$>zC{j9+=c;$hViOLxU>>ECGL0quRoIA
z6Xo0C+&AGIie<LvJoMtXq^!+8s>@R+KARnv`oqxFhw!|ac6bUicfLAJZFFa|6PDWM
z04AUQ0~{Ql^w@?8)^T{+&3##S<2VlPx&O%8ygbHPs?(jVveeQqI<hU>N@UB?l2rQF
zUy|A=+Y||qo_o*C$)qyE2NDE95Clm7@$TdHF2Bpqv)R&q{u=x~za6~#PWH8RvwV|}
zc0rm&+tpn@b$xFdC-XPUrhg0l&nRC<+yCQJglym+gBZ?=<uXhOvF8uZi!@78Ymg^z
z;nvU7Fa*<D(Q2Edp}$SGaALb;oDt5!21@PDip>s8l)Xg=qFn%%s<%p$0?f*b7U4Dr
zQ|*fF985Kw6S3#uQ5(fk9;QJIr5nf5GR&h*&2V&-&|{j+=q&4j{yt?$)*w!jw_qIx
z3kwA>jxs;o?DDUQTGDKnP(M@cEUBGs_=zHP389Um^k(6znanWKNwnRDsb9DG7_GAj
z=2j^ye-Xyfh7M})*Y=?K&ZiT?pT|iS3Q64X&n~qlY4~15X_)zhY!hvRJP~s#r;KHl
zt!n2_&$pG~o29`#%oIN+Kf|r`W4A?q3v=n`d!k$jzpn<(8Yeqy`luk2rKGbp&4h{k
zDA7@}MVLk(VZC5jgGG=BezA>`Er7~mRK!LXm5EUzn=q<yTa<SF?&FuhQn*2$r;krW
ziAVnAjQk$Wiacchw5+QrCVE5vnt2KNGn>Wi7l!(a0@~BzT{?dXtl7f%-iss;Cwbzt
zl_h&T-d1N9<jzAt{=cd1kDn7Zb+VRhdf{v1kFTOIUYw8#a|YZe@<WM(*m&4o<3YJm
zg157a>F<9(|K2>k`0kvn@lLYK+(nw~+za}H{#L__Y)02txeexNLO-4k{c^r|%s`jF
z%dp0~G}`8eVEw{7B9>l8WaK)HF4Y9nWU2$5CXWcz&nR9PZ#2_{J@GKVP=k|nwtC&!
z>K&V{9F&TPhyfrXdSaGFx9KYG^T@BJ5BYr}9NvDoZu`BPWFEviZMUW(VXeZgw+Ls&
zinTZJ8GD}L;e=h14=yMP{jFwjuF8N;I)0id;$QUPlLc%WDtDm#+&gDK+3!kB_B&y@
ztQQxx`vU6DrD}Ji;u81f3c^FNH)3u#%Cc*gNr1d=A?QPbK283B7~ClftH1eT0o_5m
zFeV(X>81_TiTmSw7iJ3BV&jO#B5wFSL^S=fM>07!z&8<0HV=?q$iy%1#{+bf;im9A
zbUehO68Gafq#tB?%kN<Z@UaKq4&QkpwJz^*{P|`_R`@iJg81^C(5kRFI^sAp`v{Q~
z_14IL*C1IvK|0bq7UEt!LG|`A*selQH=ZHgkO)fLk!MIpESvTuB>R(aJBRh=1*%<r
z0uy)V1*%<-VFojdKOh}Z5}3F*KcHIn6i2{u`3cps9)XEF@)OdL{r!hxPkuo)tWQ|t
zuKa?I$#b!bVPo<e(i5q)#9jFfn)`0u7sS~73muz2p@}>6FLd@lf9+sHqr8beE-u`5
z)E<Crj@m#8rP$Bym=xQ1ikcK{3u<(F#!1`{8_K1pA7U=b8qw_sQWIv%`+64nx7aFr
zL-(i|xMy=v5TuFXC~LtI6r<?F7xuxKD*Me2++}tyl+h)7Y!QPib+=!(0~WFP3)F|6
zZKR07-=IG9?(ak_Zj@Q{Z@onLcgpy(4U34w14u}{n+XvM^(~~Dn=j(?3=&qK|1IM1
z10<|opIF4=mof{vw<_ZCFQ^;6Zls6>XmM)w7PmM#uSy+K2$_qz6RSx~8ZsB*Z<X;?
zquByZuBAR175#1zCkHeg`y65s2M@%d&sh|4c#sBaZ$hwd;3`j!z3GRW9j==4D*J6h
zVdd(xu-9i3;Cs)~!MH8JgW>(uKovGsd4xOe8E$-sQ)v&#k_wf}@KOU+B$uI@V?U`(
zHFt`w=GhO`cgaUQ4V?H#prx+$I&j>^YFif-2?~dP4AS1lF~@ai0y2i2|A}KKnJb=e
z4PLg3FwLlhpn`i*Rd1!^l4A<~Q+4=NI0*ZpI3z=VZ|{d262)|lA(z!M9gFidRMRzv
zKDP+rS{{IOm)j2D*v&xfbTg!~xiUL`Z;Ru#IG3$9_8D{$UR=vC-D$90K_|z;7YT*g
zk2acvl!W>qcc(X!-CVlNpKZah$;E&8;S_>~BN?c7o{;asxPca~Nd3Zh1=!6d0KzU^
zsa9VkxeXP<a-;(*Y^=hLK*`w?;qRn+cKHq#MTQ3zHFPC!C_EQnmEl1}4P9SJ_24Po
zM9`*2(u^l>N|X4(xW8n$qiLDK4@G_*N?ZIuD+yq@kg6WyR;6EcYy9(U7>|DaH7mXk
zh;_BBU7F1O4PE2yG98y0_~$eXuLVsS&6Dj%nC9+Pnrs-2_dpAWF5M;hLp}bdVf2mG
zDs&h{r(wjr(GH`xlQ0_Hlx0vHtJ`cVWmO7d(k;2U%@U>*LQ*H%?E1)~e)91$h~rs6
zt?O}&>vHeh-}qr&C-B7T^{&f8furJbDef>&gDB64=;An>=ax-ncTI(sCn>{g<$gJ#
zQuHa=b&a~Z`sKU^_isb*FW(~_NaoH*IG+#)C}AItugPx|Z)!dGmzRfgsuWItr|fR0
zT;Fdiz24=c$>z@}$o%;_NTFoeE|?Qv4yZePH6l!Hc*<PPjm;#UCR62hK&dJcp5|Oi
zQ%^yj>W^X@kI^D#5l<dU8|*%juRAIhgIFGsD}el1mti%O!#P`+gmr3@rbd&imsDQw
zoG@87$u2Tc9-1P#)jrRHsk5@aXWxRibKe@Ym>smv;^8Rj)BmPDw`x<+^{vST4Q;03
zf&=0PMb+3?gS}EusLeS7fS6`SP*xBWHt{BLK+N9kt1NjwSFS-F5P))x6#Ii^GkaUa
z+Hgt6MqHD}W~LnEnyp(Cy8O|9W@ppXf3^HeYrxh<3X;jY*eRV=>SN`gtM>6+y%<-C
zedTSNVZT@2tI~jWBcVLX0FSUN>fMF7rTu^$;}Py-z^9lsSVn0($*vWam|=H`apwfI
zitv&#%GdM^dVNX$g~O}=UWSa>II^H$g;-}+_D9dIMGmPqOa6q5wpQn85xjdzeq1sk
z9V^nc!v8@->NK<e$IY<wFPEP4t2Dz=ZN|YeJ4|+Ylx&Ch?0=58q*MiZvfI;^_5ZXj
zkKt0*7VLz&?%Pp0Kf-xE<C>%SOKyVvFM4m^rwW}Hb$fS77Q{+EN7X;3XOvUN9}*v!
zI77tOYA(znv>t@E;n+__Y$T&9(}8M+vt;oFCG}cTr3SMaZ3fU*XxIFMbd{m#y_Wu<
z5iAo~D7YaL9C21GdlqD*C4Mcy)~0*?0Am7h6(>O-gy`g-Eh5}0B2jX>qR@*Z*j+mW
zB<NZCYfq3Vd^7ZJAH}GoV2h+5ZFfbkL|1-P`$gHDEW`^K33KvgB;{;7%M`!M)xNt(
z)V{lXSNra2tM=WuQ0=?xrQ&yrd~X!_-YI@}pDKOloGliLA8r*tBx|+WhZoU@;)h>q
zLUgVY#a`cpYHH}*CW^f#>%Q8D55-LFL$Z3SeyBD_ou_rI`k|s6pHw^ZoPMc&_>!q9
zxO-OQY9@kt=W1VGB)OyZ<z=ke&dY7FQT*~<(U`f{o1NN7x;II(Q~UBZ`B3Z;ajf1|
zzf?3s?nA0*4A@zr;+J`#$er#Wl)m(cxm4`DM+~O&r{veU;-{ZMq-JTnDOtVW)IL2A
zQbmjCohRE&_0u%S73E6S0##vMMcY74`%8CM_0xR5R{XSxRonWI6pG8HN36IiDzW40
zpQg&67BlrvccI$U@}5&=eSM+#$f<q$a~-Ck>Zehx_~~z&{iO8ikW6k>hiEtr=gCH`
z3B!vdjuoxe@bXU{rfLEk-khar@~QUiBjnpKFI3w=>~S8=RllY6A!^@J>z%0iO2e0J
z7A)1qV#JK1;*=O&gv+3a)ml6vt%&{$)zoM7BTDl^(c+EIW@OVAC`xWjY<V7S3pII+
zuYz1%GsgEHVVaT+vD(+)i!jSor~mjVjF-x5_Jn@@BZ&99Da?8Ph_WcR2JC-)dg&w~
z8v@B_lomm@EKL=ZEXvsq07|wAQGKJ~4+I%K3&4=&n;b!wm)fCBW|d?!nlXr=TUILv
zl&%gKf$6r3@DGA64rXDDp`#U!2)a$>fI;crGcsopbOk+bg3#I3xJO7rHt-pSa7#m<
z2*ORcnT08Wkjz^@0TDWla2C;ag`lKn(2te~N@~)Gj1ZJDn;tomlB}KxN-Ek}@&`#7
zN0`=r1Zfn&`ss3`0&Ff%8i#1Ez^?M7Ig21cNy#6=G@54!Ql^5NWPv3uvJgR9-)WB`
zrCON8SkkW?%a!ITB1oz7L%j)(G!3&HNeXojIMUB3#;8OZ&co;<#E6MD*5BnA(t@TO
z#mNjwx(!f@Sg<r4)VNYo`fLb-lo`YY+h8h_mjB}i^{FI+wz-xbLCXvqJx<5d!lnRE
z8z(T2ho^;(E>8=cdmiU$QN{?`XtRsKyCjdZ<;d}6v{4zXN6{i>MQ!qu9&aOP>8_9f
zp!AB`NAQ-0qXlmlINFrfaU*FnT1Shd&FN(t2-+-KZG*f>F|_51fSZFworQ{^B|rUn
z71URz9kw=>xYu7XhImd79nt{k*AF=hT~xtkC^0ixL7E0%XyWQ{2S;2T_n?Tu(Tomp
zb$Wy%2FF8qVz74d#NfyXPYkv{UE=Zt2}R7Zma)WO)5jBo?H5m6Y=aa%F+SH3p7R${
z!`QMqug)-0#8@RM7xWZ2pUWL3(uT1mu0BwK60;VAou?tUP+_enBgPs7MjUOIupJjq
zj2&l2ybV9_oQW|AHX6hzOTvi3ju20bwItLdA#DckHHWQBvMXkBG{+G~vxs=hAoUzo
zVNoJzL>PC(c{K2m9&s)Wd`gcxZVB~3vDC8&YWaC;;`D|=j;F59oKe(zQY-57V<>gG
zef_A8A)(am!ee8pv-<QMNsW}+Hq7#H0X}OS)loA#)ZlIKh+n#9RSu3a^|+d2?D@em
z-x@()#%JOr18(ug{J|27z+oD{Owy1{Z}7T3?na@B5SA$NGMo%OP8qi+%zhTGHo!<i
zO`e8}Xij#ie)x_cXWq2Wt}@6F<ZLOd)&>OmC(UdkdJ_PT4<@|UwP_tFdZIkw=-{Mt
z-U46PCVX7Kx<e5_Zx0TZHrRn~2SB?8dHMz3ecOZ1%rCakxnBb`(N3t{w7Coq>edu=
z0%jP1W(Fc#z$TH-C{VYMo(~aS%wa;TGePL8(b&NZfxw$!m@TLg+JS^_SPv1PyBV9$
z;AkIo#vssuGSy|U_fsRZTTrk*S^RF03In<UuMtYS+$c5#!RCWRVZKfl&@-PJqPDK}
z+(bZd8o`=^fnW+<Y4-*XQ4VVmM?r>ws3b}J!&$P7vNZyt3E#ur+ZuvXP4FB&gaA)c
zdp~Lb_I7ROh_!;wGCpZ1WLe4JV}crkmj+lt9X=YtfRfp32pd@Uh&;gK;_k15h_nvd
zJJJ&HF3uhv?1ku@jfj^4GUj{!T{Zg<hR7M!laH+J`8s5o&<B<cViBCGZNzVnn+rHJ
zF>A<Kgdj>ca3WY{RO>A(5mldWiY9xEbd3HJOPy{ssN?dVNNRRY45xOvz!{#rT*J}i
zG{0MeytGAVa^{HP$=R*|PtNXw(IC$^I^$kO^x@<lmlv)<Uq=7%^em}Dhn}8_YS6R1
zaUFV^KdwPv?n3bNET3G1p5>Ke=!blMxduQL6wm-*2NfCsW!||4K$(Az0T^}i&@~XM
zd~^+jYBR5aQ01p<B9IM>211puu8DwL$48y~bqvC|o5!vT5r^8XK#F3#7c#^{)Oqe2
z5Ou!0E(AT!#X~eF4>}NK9=t9DJ;2a|pn35c5OsdMCIpRxYC>S$r*SuLUIU`epVxq>
z^XN4o>U?@l2o??1gV5BAI?rAMqRzL+Kuq@X?lmx){Cf?ICJ$d912@$sdwKb~7+CF?
z?B(feU^Myq8W>!#8jn%u@9Sc)#%N+_%CyPr*T87<`!z6{Jbz6L^tNuYm-nxU!P4F|
zG0KAkJVsLwpn=iU1!!P2^#K|fO`QM&qdviH>jgAG+PVP^khXq61Ej4Z&<3IP1ll09
zu0R(A8x`w<&^iNM5Nv#{1A^814hS~V)&arV#XXRGzSad{r!=}CSQFh%sX^M;4hXAP
z&;?<23%Vd*ni|_4IqQPxDjRo}uL+`SW7|3h4G{hS8V}OcJ?Mhy8l|=lLKj3=PujW&
zU63-<K_5iRvbFURx*)oit*xKX0BP$e^gyb53Ji#KP*<UW!qr!3pm22-8Yp~HswPTV
zccF_?)?etOu;hGA6f@E->oPP@xcUqY6s}G~7p2Vf(MQpgE?2*yfx^{sXrOd*nBXY(
zVO@s?3}4@&0mIjM=)iQ+)zC0}-G>%TTmPW}!`Ff6z;N{-8Zdlahz1N_AEE)n*NI?Y
zoFnxjx;S;+hz3rlenbPOQ%8cqagWuL=mHsQQBz-{0o1KC(E#e!n`i)a>rQllI`t<S
zK;1eN4WMp43I@nKT9=}Mv{#>^fwWhrVgw1j+w_jst>_?i>sK_8_Uc%4kh=9O8c2I}
zEf}QX@%k1GsQt`s4XFKk7agd*x))t2uKq;>YQGLf18Tn>MgwZUF2)QL+9(W<*U4a@
zMuK`74XlH@84aw1`WYRp{W=;9)>u?eqXBkUSAzkY2<vMQXwE=fXM=%rdh2Zvh_0nn
zcY{H86zgx4u-OZz_49g88hpwr=*ZO+mQ^ZOTEqucyP~cP*I~R1)B1kp@{LHp{Ns*$
z6HozzuU8S`{JOroKKjt#U`OAqFNk6<GTR>zn(OlY&A~(Se~>>4-o|v-LAG}PqCe<w
zP=>CU;dR;b<6NnGHDqd^jpj)l6FXtq^gZ%x`Z#<}uN<Gy_s0FIei+m!&s?L}dnvRw
zau`;>v`rC@D-$Jq%yi`2`ImDxi<HGb;^CE)PyP~g`Hm-hrMn~{d?o-st%8DhwPZZM
zY~ZU%F7Vl;cFxj`vh0FA9!lanllSSBJ}pX=X-|Z67`s*+V3r+8wrnjmQO<m3?Yyh)
zS-Mgd=B#C7LD*Q<Rk=8lsl35(vq9V(j@#81!_NWn8*=>EQ(+jEE{NrbV_Ck3gyHFd
zczPU9`f3h_<4~0&jp10{w{qz}t5$vt$B`;WYFcco;&{vaBptqEMZV*@<ifHm-VbzR
zfnhm;vK&_&GYq#gRl(AdOYeqO?qS$W71_|osXg@UI|p#FT*l_2jtOD-U8o9=rZ2ig
z8v_iNO9+=S<#H2cC~d!jaIzfMp<olT=d>{VzCmWS<(1R<xsGjMIR52}p9W)IUG+Yn
zGWMj4tuDR69Xm_KD#bO#1lyAbexJ8zk5P8xZ`G+r_&W~)N*(_J@E8&v)8r3^%?*If
zn6SBCAQzKcV1I5R6q`F>f6(Uk9>B;WjP6lJ_5r|UM7WUuqD;egpx7Si2{4AyBY=@*
zQ%?1f6NcN9%;GtaX*1~pL&oJX#4SqCz;St^S$G&mF91dp%7}%<F`Rw?yYx)M@EArv
zA*$xqobVm{1=I=b2IM!8&(A1cVEFtCS!G?U<vBV-?L05zT%%_?Rmqry!R9X(Z-7Vq
zGD|fyLw%FU8Ts)<i)|1A8p~{e#*qYQEb{>xM<qZL$joZ_j624#29W*y_<FO8u>qMG
zEFe>}VvoLK_|0+r&<@H1#LsQ`v3&-HVF+Sq*9@^{a0y}OVzp!i;WE)ukTp#8$&brz
zf$CHQ3z{)j>`eBY9?4=jzCt(-@lnq=pwd%DWk~QAr}VMR6uM_co?t9t3|0p^qcDBg
zfOQ;gl(wMp88p0X46_8nY{Yoslwb$%6+Ytqj$wxNX;ZLjJkyg#466)2bs4WSnl*%B
zn1d%6cBv}BQhcHHe;8IDV4Z)-P<{H8`+%PiO_+3{l_R6x4ZV;L(}O?Y;|=Sk%CWf!
zml%#;synwh${l0?>^}gH5#cdS5{&fh0q7WvMnTs)F<09H@v|tur?OrG!_9{4#zUQn
zb@`6r=t$?&lwJ>jm`}C??#!s^Os(;lF1cX7PQw>zYHbgqCf@g_FviSedk8wbu~@kD
zhSkepxQ#$7)nj!(7>1MTk*}S9S%XJb%7z`O320G#s_%rsusV~@E!f6p(uG!EZ^>Hw
zEly^bK1@M6KpD|;c?_p>XqV_QD2CAmlo2w<XkUU<jWBv-HRKppSI|B^ry+{bH}#o1
z{!!gehvB1quuBWXM?cD|OfihEA&ka9q6{01u>Xc|nh;J8>^1-ltA8M@EQj!VY)Ydr
z{BC5HZbV$ypolSkxqSob%-~0J1p=lgw{Q>aCoSMPXLX<$j(1>=F5}qvEEuLgWdmkk
zV4_Dh_{f7@K8ZN;umeaEmHR|~VB|Cd56*x^2d1?A0K;$&W;kvc-d5!f7{;Ku{e<yE
z2Dj}{?iYcA*^@3bAez&30~<ZJmq>=#P^P_t1<_lE*aH@O4Ld<<IAT5YNZrM7u{>VY
zc}yseGkTL0hS3{jXG1wngET}PLfA2|PiRkl1L%`OInfgWY=G9@0=sohuiC;eN`Q>e
zQ+Ow{f8+D&J_w8n+yT3B7a}+9@6e@+vBTzQ+bP^nYWSg-;|wTFmh*{WlmqrvB_rIP
zv{2_WVtjIxZhSyZgigMl{Rtc;Y`U8L2hc5#a$;8Ro|W!m_<aF8hD}<tRm1movU6Xy
z_n2kF8A-DuFTS=2i|1TQ6U@sr0u1(p)K|TVwt)H!4q9=qM8~#t3Lph%?M}&wq`3l@
zafVrHoLr6!Nfl|4-GOv}dW9KI_gad3jlzAF>h?{D+0eMYutJ+9%nfhZqfm(KL|0Y)
zlASk=AXC0oJ$EJ*%T<zM#Ili(;}V1WN2<}FY?l_<bEU{PNwUKrPo+YJ<d<;3x6&rx
zCLb8X;r)^~xxh>p?<np#ZcY=)lo^B17RMcYrT7*-<{M4R=h6@p$6HF59oX)J6VbZ@
zbUt4rpoe4W#^#>vHPUE-QJUeERB0YV%%mTFm--Loks}6MRbg1E=agP3hftT{t8}J5
zq|pba{e@KM55)`tJhG&^LJ!G7@f{BRZ>f?$6_Bic4*Eq34GVQ}(2B~!?Qq$~wl-)P
zLUl%SS$8IM9AM?9T$i@exdlu~<gmXKut6D!E%w-x>iu*2g#kX7st+s)kAuFG%HxGy
z(u~3WEj{5Q*tF0U0}j^v0gKneLP@R8k5^K2iL^W8R5}C{Il(MblZjL%Ur^h)$v3G=
z{-h6XV4xqR(7)*=s2FI;&d9r_@4z5@ya~j|t2B{4aD>pr$(wXq{fN@MKm`~k9}43d
zrkHU(gWNhaz9c_Do10cZ$M-fgiM00R^DFus8)BTNkUmUkA7Czb+lg}oCx{2$a=L(U
zvRuZBoeQ1^ag5-13GNvzK;CkaIREr+vKKPp(~JTkwBZV@(Vz%?+mUZzk->`ITTXw0
zl)+)Fz)|>?-8G2apkzm1!9ei(8^a5<g==~J1Lp;FJLSAO7c7?Q&fl_#;B*7&)rfWq
z;_tS6Zb8zsD@NFj@Ev$^!A?wCPWLi<G(MYAzhI78n(o2I2;{G}y?6l2>xI64V~|tl
zvQZ{DdgCa9!FTvH1@4AgUXNh0!5rw8(-W8z%%5&KJ*#q}S(e@vlFN%C7j_E=WAcDn
zAb!BKfpLPxI9gsmA(9(1Rv3%@3&O^-Dn9gO2?Vp>AZAX<?4^9j0>SQInKiY~GK3xd
zSG5;QGCSQX+!XD(NyPIlkKH6fv+aTRh>Um!@=i?3{iriIqjx}0>notq*N#oP?2X+m
zLc_j9E_-*2%s|{=SBrEwcCHp_xdw`gGAy62axVhF4RWoj2#!O;G)=0Y#U=d}d9U*H
z(?52zayEl?ZcIA|I=62-IES&a29y`tTV6=B1e~)4CbqPg$g7MO3qZjo2Yn$uxjw@L
ztQYdb+Gzkdi{y}h$kVmSrXJO3n7T};w!os}oU*Ls%Cbc%i!_~cNPv;p3gzxwoFazO
zgoF_rRvh@5Jl6|#9vR9H_6RVp&GKX53u12r%%NfUuUsApW(I{ogKJ%||GlP9FCr#U
zI8!Lyh*76kp)?deWY9JSJ5^}*W)mQwm(rXEmy9f?(aUprcHKKl)0fgoWPih)3M{|N
zaWP81l+GUe2Gw53CXofp5mRQlR8bHI(|l<X+?XJf|KgNHn%rrla92b5U}BVHC7&+$
zDXztTD<I!vmW7pc!gvp$$^{NuI%me;i!jS^sRk=>SPE7^)lQ$4LMB`h<Hl8<M0$rY
zD=YcTL21i+EYDLTVop9W*wWcEz6x?Qx_kybg_{V2EWc{`X^lBNU;iu5AY0?~ZViuA
zpRxCE5z}Waoj$`G^r&tW5;8H_|7&^T0s%(JJ{l_M3ubag=L#8zGhCbHd!FYgM&;B-
zPYTyR1#=WM{NS(Da#W>3v{0C?xaB{3lN+xbwJVHrxiX@XYhR_wwWBIRi~&EMW4~%1
z#G$9t?3!Kh8#&_+6QF|uy85}*oLBj+(y*KrPEyjeY!6n0-9ig=lAfcMRSu)OBws^{
z55^sApzJ|cF1E6d;Va=ZLLNYG`ZLLfHxYeY03ogoSX|ibhAlW}1M<v7%O_Eq;p_?l
z{0vXvVgp@7*mh^vKl0XqUPt+rhq&S2fpayGxpwaeMj2*Srl47AF-~!kK`zN_nPvTh
zGpfc0F)$h20RdmT(Dox&m@^ajGg{*g1K51Q=4ce~@xMy23BDil@jqV&n2GrT78q<X
zZu{^F;WVV20L7^-n?K+V!BXH`PG9o1@_LI&Z2JPQV34xuwgdmc`9K|*yK}<n_Gn5Q
zz1)oD9JDu_S*2@6U*gXE&nPD_gEGaV#9=q52}M4xMQ+)%APcR5&(J6a*A_wbYlG1w
z%L`G+f7Bj@UNnzFPpEqwrCIeTwnEl|WiOIq7KeUFv~yuiF4(^==|AfCswdm<Pwvmi
z4rMSXvorv0TXSt2v$ow9`Tsx7d*hlnAw!z{kHiNZ*wKjxw%p7hMs;-hQ3bZ`jceQK
zhqP_n@7-}LSK6B41O1s=uJ4x<-Ot#2RyDwJ<HdK3_Q>9U^xYbkV5DIivKJ$NoVq%A
zwp%qWB>zkQ=5Ld2xY^}jnz$1YF0;RS;FBd8V3tPKi&L3iyWU+6vtqf7{)h=!I%P>w
zrc^p{xCMMZjxwM1QB1>MhG4gsA-LHtXgG=b;(e4UvZT}Woq$evvO(YK<29aqm&lS6
zQTMM)B)AkMV%Jd;s^%*4rmq#D*Uzn8Af0M~Ttq7}KY`TU#tx+$148<(Dd^621kYb4
zsUK~2afLBb!02wsEj!5kyxwk9Fk^)gN|M;whMzDBPI**GN>zf<jI%KJIaU)DvG9*)
za6LQzDDnQp_k5Sya%%Pl5i#sOYjx$gAy8-o@YEB=omrg*qfc^fC$`a5OTW)^b$#}5
zHp?hx-zzPHXJi??EL%)pcuDC3t-1t`qiUfWH!B{kCimAw>UC$88gZ`C2x}1j3Fbt_
z2xp7z3drwI<kz}I)E0x<a^3g^?HCH0;mu>RI(g^pC;J`5=^u{M-coff?7EZeGB2WA
z#4+0_5>dTgPS_uK9aCyRz#8!VXbXVZ%$7}Es74Lgw4<Ma+A|XiM9`GcqP(HJzNx(a
zH;C<=V+(bkjZJ}tMk7G3D5zDTPOA)0%%!L;=4a-LV};na7*mS1UOP^w7m;Se46DW~
z*Bs1V&e(vxX*T3^BNpqn%<zzH`r2cDMsHgWV_dIP|9kaFbXsvb-Pmb0%dld+3maoz
zE7F#idrCgpQ9l1m%`31iFfqJV8Ps_%k~}2M*wqdm{p)x7$1?T>!pR1;0bvn5zOx6e
zBaYjs<W}C;5YgI;w(TB6V^_<tsth&A@~g^`DUpuE`{v0mT$q7kp+hMY%WPrttdPp`
z*U=)%c5(0}qaWsL!e)_Kt%_OJGy5C6=uSAPoaH9>F2Y%{qQA-5jA#sD8!nnwj-JXt
zusB9TeY~#si^a{@1!32st;9UpeuQc6UZu%~ecrwyap^9}AH@u4;X5OtPgkllAS0Gf
zlRq-_stl;?0<ES~=fKx$@@xcgzfw>hOi-TRK1`v&!y!x5T@@nQk$#a`I=)_n+x%?%
zRZZqnBQ5K^$ns><QO17gau__&FtCY}-$W|%sV^$?>MNYpnUpu1sql!Z2YP6l?~wv9
zb(Z{l&MJ&|>~17VsPqD>Xz$(6gicm@{Ws?qvI_9CY2m**ejU)GAXzV;cFuUPIYYQM
z1*-=_6X|oU$dx*U;hXTH^FvRf!nbUt>lA3c`LP*cUC79X({P>$FHjb@>zf|1GvDkc
zWNFHyAijLJ!}l8ZA7xx&pC4rqjyRW2*sdRHpu$F(w5)qC@pKf@GHC<JCO&8Gi~@@`
zRe}Ya6`7Pt*VM+i)ViqfF=h$bgY5Kn1Qo8-xTsxGv2Ue_kve9ftPhz+^*(<tRMh`e
zVMVHHOHEGiJJO<t*+W%WVZ)xJwov%eq0o@oKk%T!uKufpDeR|lFO0pT)zNa>q?sW5
zp8Q?~A7>-zRHdKaL|LxFq&i9W>XUSUVdbw{QekDx7EP!vI&?3NvmMTgC3_f+_VK((
zGvUJ<VzpPi!;Q-1ERK`U-kV*-Y!d0+dXhw4;T+2V$ikT>H<o=*1dH0{$i1%KSB!+X
zH`3<zy<j99CFfoXSJ>PqRanvZIC4XJ1s0-l>w4%RIVP>^h<ttE8#!j}tL4z|so7&U
z=c%yLu(I7d<`kGU#ZYwn`jm$|oY8XvsT0qhEfcC^ETgZU-x303ascsdT_TNkrDlP>
zge7W}E1jl24_*n|^ivH~*eK((l)a7F(KXlfR*Bv2e856+nH@Z&;XGXQ+}JGCYj-DC
zfMt)YKc!mP^HP>b13X8H+EZsDL>(!jiaP6^NflH4#FnsC57JhZ&ua-=WnA4^p=(DM
zJ(KEg*;L=_E5;T0v`dpUxC^s9T)<W+wxFr-Y1Soc@FU8iSrkY47eIJ~=%JX!(OiYu
ze&n}gV^4>7>HI0MW((hA=Tep%(O|Z}OoJ7To>~qIZeLaZY?Cg9oSKYSdQi6kZY<ct
z7Tx}YQs1oai3H(9*eSq@-$M|>=Bluw2{v@4+XcycW<u*b9O*)fx;>PdmHyYvgt*Vj
zxI%gUl6G41=9gHWCT(H!z;Z|Xho=4W$8c|c4b2<D@)ikV&7A#Xso_a1;g}Gy-LDES
zta&;fgB{KQQ%b0!OX;HA^OBxeJtG}h;gsAcq6&K}HIY59`w3h1M-5cesL?>zN{CuE
zl0G8S`zoMtbVt`(xWeX2EpG2igF;x7rm}t`zB3a?ruRtfy><l_y4K5b2o*KUX*AFG
zf(#?GHq7#v5n~a(LxVZ$zbM?RE($l4Szj}i8c^v|kV2i4+Jye68b!EcsfX6{OrsEV
ztOhDFVB@KD-u7K$Eo|0{3|8_4qtJehe`z8Mn{567`}p>8Y|`RPsKq%<bs3vA07Lru
z)mDK;GY(#JU(`WnT@4_2Ul8l&cq^T~y{}q|74KaSSlHk~8CNukCzkr05Msy;iTK4%
zQQszVC#LVQAtCJFs<6V|ewQNjy-g%+*o!KxuwlQY!@!=25YiiuvmN>~6Vomed)G{X
z1>S*S-(QjcFIsJHlZ67W(tmk8nFBLfN#|_;YpOy+HF?!U7Haoa9ayNJg~HSozw;_;
z+L<JJ$u2|(C}sU-W=B!ZBuY79I~=HHHbjS~tW&eSY9HwAa5*>2W$$rL6;|zK2=o{R
zC_tyCIgA0HE51<a9llUW?+TKpV_z7S9QV#>rymz55Sv@mlyB;G_+6f+Uo_yV!bhuL
zc1=UqE(LC!!>aHqugLyfokC(q{Q9d?PM|{r^v!Iy>Ze%`cpxV!WL5mj@CbEYf9-VW
zFUc5rSKG661z3#g8)6i=^k}pAS_Se|xEx>5pSMLmVgIC;DsY_Cj`-`>P?e15^$8ZY
zLr3!3<Y1Hs6vWS^Cn5*-<?j>tAV-;)n=K-9_Rk5%hCRmH>B~Pd6_!0qES&5&r!dFm
z3%s2k+<>PBq!+g*7zMU3?)2gA1YFoASAh#)tVODNZ(;~U;E#Y-i^5zz8*&%6A*WX)
z(eI~08tw(-`gY_lXh-g{9XU(hkaMWD#03@x_7s_Ts;ny$?t)?gWjyUjBD<VnTUzJB
zO6!P3>sLxUTmpF+O7(E3XfqvrlV^9APsIrl{*fn)_8rOw^2F-ui9;cRG&!?*$xsL(
zPsL;p77FQ&M*cneJ=@gZ&tAhl|2;68qUP4Ivm-l&Kw{QC?!INMbgtk8`4V(TqR^Y}
z?Rj-pV6Zuf6$+%e)y>nXLPeA3q*X7Z3K1fCwQQfJzsn6q`8=)=K^nhnUt$$u%+BP=
zZsjv+LWE1H818za|1)V01bg&MNPa6lxGG=o69Rl!0O)Oj{G6eBi%*CkJ!jya+!KNr
zKWsSMz|Bl&vK?%xW+!lf53bJ;anZ_pJq*~)lrCSbE?$M$%8q^QvRuhaKHht0!<%$A
ze(RgeiJZL0pv|NeE9|{i5&7JfXPQ=T)(Ih`b;HfGcS4ABc~aN9*CfsF71F|Hy$JGR
zxa#FMAwvJnx-=^kkg`zTV%<^IxoKPSGuqqc&QB3|D4&{B;e$RO9W>^|R^VgCo^)<I
z?sAovv9ZS*g^DEiv#K{4g$PnVi+f^J2qN{i%J)8n^o7E#?)8)AUkWYg@iP{dS~h|-
zy6my&a`}6WZ5zTCN3Iv1>JA$gm|Kjsa7EFk#if#Sj}rEk8R#Ba-$~toX;41#hiLx2
zDe#^SJgV-EfXecsg)3B+pX#s(f&Vgw-Xn37>pg#ad}lFPoZ{fGe*IO26LwJ^u{C+`
zXnt|Z1$n?yC=Olx#aeEvx7cMMGKAfuXR&hR1~|17Jz(M7&Q#+>!1jJ<;fk6Y4%A~p
zum*>YCbF=}Q?<A^Mx(=XL)c=C4zE<h?m&58YvBr|eXAVf2e$V?4_MgXM*uEDL!QjR
z_bAD4wPO*OWK6Ev^)pMI#U?yOIF7!zt-?ib1O1c-`CeIlI9E8Li_7{Ngd#1Bq4(%f
zrh3YV>OyV|y{8MGswNp^eg4xx6-}_Er8;ZT(pXLvBet-HUnzxgVIp2$<3WWDeN+k<
zW0ZOMWCprt?0zVPtASGfjRzG<+4Mp|pVsS`*5xS{iqHM)W|yZ~C=Sl+`-|b4s}Z^n
zz>9K@mP)%sddmK-`4doOq#;(9m?;OUH1e=3K_&l%ySB?%7h2e8X_(e7F%kCU!whtf
zJ^9jE3xv{MjpP;uX=7JoGtgq0tfq?R`ye%0T`3;=10{W}11oIogKB~S4E9MK7C(HD
z)CO4dO&?HR@8uY+PH}uVjSe!eS0_kDIJ~KSCA;c!beH7oIz6|1Tc-SfYk-+*q7ZP-
zgj%>l^@x<Rl7MZE@u0$n7E1X~DC_)T2D)c@f9Y6fp`6zPkkx=oW^I{dAePU1q@0lg
zQkwM?a3l^xmR|4bK82e|Pb&9nXYoL#dDK7^isOgsu|Ke}zqN3M%{93wHt&*m7LxS|
zc6x_(d+Sr&IlxxMvp5Pe1zrccy*fZD-s!Dp%E@CuZ3*>&h3XQi<@Nwu8*88no4Qp6
zMXUyiA?zNLm#St#0cBli;fkak*=o5;u*OE72CA^B6V-G}U}LAMNtm$aUa4kg0-JlS
zg)40CjXErPazw_@v67@)vJ#!3c7E^GL=g|I+M9#?_-L-B?ZRPxm3w_T_~bT<l~LhF
zJKC56?@`R1++Yc>ITcUUOaoOY>p~S2A?go9*gcZ|(z3QfS-;BDVWw#?e*>rdy`I7i
zrZ19pru*v&Vnc`TKE0~Ph78E)sAEkJl*EqptJF`e?>7Xs@9hMaM4Sh4cj<XMK_cQy
z7Ao-AKVo7p<RXul;**GK?~15cO<$^Dtyo<)h9kEYYi*olMcS47Ml!Y|GEmQH2)P!S
zP#oNKwmn7GZ2exD3Mb7D(U+bS*c=RW6Mzs8b#ekTe06YPMq*qn6GHJAZubSVJB0zs
zBR1UTUL`4grACF3=0JaolbHgW<DnJevx~=hr&M!Zq_bohWoxK)dq05|9lk~WZd~SL
zD)R$AsoCBP+2>0I7WKIH)$&X3A<j-P5{IvzXOfYytm=AF=<RJB+1{lv`3ZKQH({>A
zL%Ulej_gQUWsX*chhp1zTTgKcneCm67AKOK$B`ZE;tLgj&237&r}P*ea?;EK-HfWk
z_TvOj+`-E7aUy{ZIkLlA`wy%R(xoR%gPx`5<8*_?7Qk^_Ro;&465LMDK2Kl~59Rmg
zBwX_OT7`?LOM4G5o&AGViwV;Nx*CfW<ByVJup5*g(r^*YgB<i~K|^$4KfVmRiR}CG
z?%9L=>(?p9%xf=NKD_bv>$GwmHAF|}+kYpR35U-k{&xzgIt|f*#{73$nOY6e<vYjs
z_wM+8fMsZD$dZgw%k_Pq{lU-X$u3+Fn~0;%(~#I-2zB|7F3Hie2qGx&Bg&%Oqt657
z)`0!Pr_TmWCs=B#Q+VoS6o+_fs%d!YO{mlFU68Nw)bzSD4eET8<Ee9c<0G8fDye5Q
z%>hroq;Uy6IlDwogPiW7@Z@nY3u6uPWFBacvqc?G{+@;L5>H-i{bYwAw=1=Y^yr!1
zWE%8aKS)=2`VG5{6i-jgg`Z&Poko6(XuHA#P&@5MOFRHIwnU70fS66dTn~V(k9Yt&
z2(#pm9sp?t9^fNLqW~oXmm5Z0A9#c~)NKP!3_L=fe&G>nrw@<7^m&skG!cp{#3R(Z
zW*r2o(n+j|@Re(}VZIJhJOZ6pNQa6;NW(1GLqNJl9KvT5YiLwjJ<Nbdpgr(+xdsAJ
zXnz$aGd%=)Dx`;?rw<f?Y^5~Xz)UsS4<ZoCfB5w2>S$J=rk2<4&HQj%Z151w))L1v
z)`mdME*>IIP%a=3fz%2f0y)V&&Jm@}z(YivU5wqkdfd{Zrxy%@HboOcPn>k^SkmKh
zJOtgx6C54wq?Q}Iwd5eMJ2Va=rLU>!L1grOMLmd|-kOYupjVj%d68;Bl<Sz*WM>N*
zJ*mY*ke~jXzE6#S7`BT5*|mJd8W?kWCXfcW&C`%uNeY@ahsR*%GoUw7>tfLBb96E2
z%?g?r*kD!%gC;y`Vql|UJO)<Pc?@iPjK{zl!7fHVUu$CQ=y`=E2G$z$7+71%V-&RD
zS`*`Q9cj1YOHWUkzrc){CWfYtm3~XAWk1Tzzn(p1t2Mj11&_hHf%PVb++wR~*BOSU
z4PqG4c8S^m^B9`?!7#Srhju%5ESW+ZL&uIW46IAYV`$nj>W!r#GAuA`-LYLUi=(*~
zMl_4awgaQ<qbe9rh6I12Fyfp#w1$j0uMTZOMje-odhMDZvk19R@gOOCuUH#|J`Su2
zVnnb7d*u-iQU)A8g1FECX;)2K6C`7~liDD9g58E$9xkva_@g@5N>v0KzZmh$?~LZl
zAwb5}EM^Y@l9g{)<am@aN>^5R;8DthRu;e2=+UywbHw^3<L>bY5ztZxr99w3o*j<c
zd=Ebh*=uzgD0PaFAHL&J*tUf9YZK)e9)+#y)l!B>`K0MqMC}6HLD+=X-Kv^L6Ncy>
zHqt!l94?|4=Lvr%MZDQ?i}Akf!NKy3N}=fBm}*a+eqp00_Ml^FiY?OC)HqEz9cjvK
zE~AUObOoK_nFdZX$MxF7=BI)2qFysS8YLQ?qvTv?e$hp)vB?=8h+iB~wx<SaM;;ke
zI0QoO9Bn>Fi!4{nHe<Gr4G=xlpc4b@`PD#ed;qJC7QZ>Cf<i`4YM^q(Xl4ll$mT<Z
zEcY6Dz*!^J2EU&DcqC4fSi>}s*zBmL%0?Th)PsOt9EC@!gq_zlig={vlnK2TsF64Y
z$6A3yB&->*_k%y!t%2<vv6aXP%qQ@Le~4MyVh^=yC|*)nHFx;f62nW_^VSF`_lT^p
zBk1lg;`kgb+dI-O?Ecvv9&9+NRfvceg;{3yJl$$y<L#d_s^>NFR`PY2MgNfv`o3L7
zm>#EUDcSN6V=*i5IWYrWBhMl{ZMs3zqB1Dkt%VwG_5G&E$Bh2AXmU|Wzv<ugang+u
zoVfhEHV(_g(7|!J*s2Mj(oZn}M5|?t0F@Tf01$IiO#rdYmkA(RSz`t$-<Z*(@<d7p
z$m2?Hj3AXUWfMp&Ysw4~%{?%J#L9HcAkm5)BS_`O&;$~z<1vE7N_zB=hJ1C85vVFE
zWCV(x&>4X$%YTeOm6bqxP@_&!kP)n^KFA1G71%L?RaFfc!y?;FBUn`}kufZ7?`PDh
zFw(;scZ-e8fyJT0mT8M@ycf_m0ah0#83C(nl+1zAGz=49&C#40u(F8B92h<BGX+LV
zn~Z?fRZhmhXjI=An7*4j?v_Cr0jn#bjDXd}QAWV(Iw@mdEZT1h%$T0lg;Yks>Y6G&
zu*qI|l@YY2(#i;0Q*>n#O?R?S_DZqLq3LVeWUoNW2wGFCWdw~o+A)DvS8$m_V+}Nh
zW^5Fi5-%fYO|_R1w5IUO7@C2N{$#Hl%orL=12%?M9^aWjYwE>}pf#mqM$nonG9zeB
zL75g>o!QaWmKlL-%gl_xwH0SZ;M(FdgK)GC%^(~tNizqhAMfqL(LyzIaQZRi4xIiR
z>%i$plRI$wR(%gHpRdiqu|rpLaQcf*H&sx3o#?=^S~zoXtSrtP+?TOg(Pp%mgEObb
zTuzZOICE=7TUciVj!$<n0oRn<nS(QDKHDNZb8zPLt}V?o2UjL)nS?WBjoaEib8zOY
zaa+-61g<UaGX+=G`RTz~2PJ<-@VM$fBY0dPpb<R2=)f3WSsrK(udEa_iN`9!jNzFc
zkFu1|2p(5eXatWdFf@l(=1Q8xGd3Pv1)>o=t{Bk>UMEdd2hTn%Q8WU`S1TF;<O>(g
z0Cv)e4FK}xjD`T)%0?rAe37FWK(5}=2q0hjXatb2f;0li7ewj-I!9_F%^}uhl130a
z6_Z8~JH?ZFi0-jEN^_7WXk}AfX#}!cXlVqpTXSgyvRi&>2C`F$X#}!clxYOATc4>1
z=^ZWAG=jNTwP^%%uYl7qrh%w~ceJe23}&~&(+K8Xv8Nf#Zr!I5%)Js&J<Q?pYEUDf
z`&C9pK=*4z&4BKei<$%FDo2fg?iZ070o|`BH3GU{T51~9fPoqwFF4f$9SLerji4Ts
zp&CIws7N(~x?h~ChdLJ3sTzSjELqiqod~N}wQ!w*xR6y3*y*il)xvfyrSeui9*$zA
zYsKaN0`JQ<0`^h82zc7%nr&0#HW0_B-za{FA70kr-lfy?wT0`^zR@VQ0-o5Ck!85)
zr>`tKPml!d@-WGCfWX-MleDY#>W^gd=PY};X+x5!i#Djjo6qy^k4f<_ahyhqoYXXz
z!u86!$y5^PtJh-5_?423*0W3vUl;B2=gZ{pe;$9Wuf7pK7n1p<Vlq&YmZ}YNQB^Eg
zj{A!g^-SNON=V&aL}Jt2wPY-f7y2gYv9aC6aY;lA+UQHISJTG(LK|}<B95zikhEqX
z(Tpq6x0_vL5B+f5B*<ibMV)y;ruUstEGC3BvV5S5IiX~2Lpd3m&@He@nkF76Kan9C
z@kc}>NPj5Ci>F}-n7O<agRm8y%vtLTo-_Ze{z#m!Bu)3Zd72))%Pe{gl`SLvOmbG3
z87xj|26aPLUUcmpsmcXYWzC}B#y`@;y*oQ+TxZ9b)zs{FihiI|$tAJL%A?QRkg(f>
zNwW*%$&~0jiTjPrlJDmCs;|VAB%K_5P)B@zJP^@>R@I#5%jW~YPcc3AyvBPg&R@FX
zOwP`e{gsElapjpL-je+P;;?reJ<(Xat{P7gSDdR;FIMG^bBN?mruOKbd>L^Icw)TB
zsbmU9h)QrEQP&hiuzURtB5tMV8W2$yjKe$^5;`hP2niw@(ec8P81j%7h5fKbgo6<?
z>n;c>$_HpK6_rvvf{?napuI?VFOt>JUfR0~jz}=l&Fv9)J^R!;$#%<=HMFiR_M_Wf
zD?reF$68fdmnGjo3#tet6Q)D-6fhP8RtRN&tfMhq6+%pJw+x5je5-K1Rk+?bt~XtZ
zF_^B#TIBU=!V(MCMH$vzuzof%TwiNZoKPsPuZI|}FN!!$;y7I%VO(gqIpwz~PzTh-
zf*uNNSzY2lMWI1`E;ud0Xlp@$bs25s2a?p{6Ga*kiXx2|MUh67qDUi7u_U-SMjNpT
zB;zg7ibFXX9Yib&9mFgO9Yie(9mFjPmH1u<v5P_n(ThYS8Z{yqhPsn&F$`p#9es;}
zpKc$3;FaD5!tSo_1=8LVA&bH{dJ2Y5&A%abw&5t$A=b9KJRJ2k$Qm?~3e<K5YMX=F
zw%xjj>Lp}1C0eZjAaf2f*X0^yE<j_~1rlPeiz3Wig3P<Qoq4=gwh;SX&;so}h<z_#
zLH1g;8v7ggo<gP)m#p_`Eq9Kiay(y;RtN1qXFrtn7!K6?Hy_KF*6IMzCr*6H7EDT3
zZ0)0aoIS2i5&^sMA9LUx?ma-ee&NXe1l{<kbNiB<S`c1)cwe8VM;0ge8_#@l#ILt>
zCpeO&-wz~d@a9PxoQC7C&CEF&%kTXQUQEgK_m1Z(YR65GmHWZ_y8rAgvEcYyV(*jz
z2VN4p9m97#1nzDKd_soxs*gK=IqskO4Vk!LRay6*j-aqwFc0FTeIeT0#+jtPMG2de
z{{T3}<L>rS!wY!Yy;*H@;x-VT{v+g9_;^ma#+^IT3%NGeFB;h>i33<ZNg-T+eI?lr
zcEDa40+X4<!QSV2R=Zm73Va*SHup1mC7dXj@pMj5vcUe&7bdAow^H8;R^k11^73u8
z_zxpgaF*gVNjY;6x?@Y4&n2g1J(H1(k=OWSx|IPb3Yss}y$$yN;OwQCMn3)xUywCk
z&|F@e^{<yay*O+5C6kns)unkS=GGmjw81QV+(V%30^DMWXR`dc63b7&M?e03{c}D4
zj=hv|>S@0M$w?+fn6lN1rZP|>lz?c9rvWvW6+-k64h4JRDHR^eQ|jHQU;44>p{1zR
zPH^vnj33Bqm5_9Kx^U!t=4>77NJ+*O-nhAdlLvJZYqQ!N6yh;ikV1VV+%+lOucR<H
z#uzzL8)9LEjN@D~jXS%VZ4L*1f-x?5wjq+DkW*2R9G4IZfsUrr$Q5q^OfR-1bu8n(
zSRQgdjvOC19@vj|xj0Ql)7e#(l<H38dN_^{G8Z*t<V1Knn$9*~#RwY!H(RTPj=Zo9
zh1{3?m6JlPI!RWvGp)L#5bAZ$=>m<OS*D_={u85e=L|CvxHeO&AA$YmH`2`0=ElyR
z%shT?7Uz%&@-kg%@dGE1Yjx3^J7rZiqL6E@KUZe%!&+8MjwMq9;JB7J6u|MUJ=f1Y
ze!h2~$;~qGud%Oo3QGgEO|$$ln43RGl1(HlcdRJoj_;U>s@UDA5PVCyDWJp$l?-sW
zTW(+}_X&_2fO1nnNoc7A%HI%Fk^oA^mP*!ulCeby`*y48+yJc;ORc{Et&<bA?kY>S
zR${4@0b0q4T1}S-XiY4&J_A~l)3nyTC7?Dvjb-<S0(cgu@x1SE`=}^LMF4~c5J3P4
zk01gRn5O~VLEO>0sdg>jP%b^)z#5xsrt@^u`bGpv-2zgx^GGcR!KTy<l$rxlpU)$;
zoF1D}pFyb^Aa!{bsc$1^Q|uBH`vizxfe299T!RSEzRy8~UjPCF5g33_fC$e3!cP$4
z0YKm&!lDNuE}Pj)90eGl#wcxbEP&$fa{)b6*^j_p+XpwNueJNhr3dNvhYA)$^%+kT
zvU)<z!4g!yPj=Jk*J=-ST2(XpAxjCfnO8#7M%c3LS^k9COjU2%T!A)qd2L#4Ej1pp
z&FnMr(2`P6us2svdl;A5uWeR?C=aab0P{VUhn=R3n#U=&zH0l*WN8_hJ;TQ#PPVMi
zdd7=J<smOt^cOj}N7bn^7PKH-m6Szs8Q!qsRoS!7@)og<PuEFQqxi*T3w28iRWm79
z=3cIZMPZHM+hRDQ)(H2hEYu25Cuxm$AJ1aDxo}iWZ;P(k@B`tFlqV2Yka6b`Qo=ZA
zukIClEv6sm#i^{vI;&Z~ePA?t04*ifh0q{XFOGTnQJ^x@4y2L8!mU>J-EOdKWX4(b
zy~w!!f~2*L>?C;I5){y`Jw4E|4kHS7L|wbK!)G1t@b^p<EAq=O^iAIIBwqg}m1H%X
zb$k-*_zQcb{F-iu6HiVf{;q2Kam3^#;viD55^fvbw-nq}*yHkZcc?TPSmaLS>o2N)
z!nSnbMr`{*bWSgw!&B!r{U9p0LA4j_fE6-hd2nO?d=O)!u!B%wBI_2Z%!c~i9jLna
zNz^q~w?L&4&eX(bzJ87-!zobnb#xvI6ZH96Dcs(?ayK+}|E6_jok@fDrlCs*Le<Q#
za!&Y(p0-^<<v7w4|D4M6>htT$7`}VO4y5dFN_yLRGY2U`XRl%DgKjutY@Ny76Xi4(
zGgb?ZbETikOs{Nb)8ev1xJf4cD3dqbS67T*<{R?eblgqV_R@#Ej4j<P<)CY_3vSDE
zWGSZwam*51@px^X0Zw|*g0<Z~-<MG+G+U;5CTBQ*6kQwjeUkM}1>GnIdSv9k6LK8N
zzC&#stMY?9U2`nz%TUZ(=9w_dS!RO&2Vim9kBTw826)=FnA=j@Fc5~PZxs2Q%O(Mu
z4rEG0XVTti6j@GGJC>_MfIfXC$2k=OmMw-EFedx`yDP0&E&M(k&$cr;7Euu|zAV-K
zApHvgs5rxLgD_`alA)qlBAkO@iwc?|Ngz#0DF>qveu6b%AvkOYnaNQM<69~TN5xE<
zud&EKPewm~J$~KHf4~4UPJAJGBsro|#Mhi{=8`9w{t5N_!Dv{^Ztp~U%|QR@f#sys
zB!V_zP${v7(!6O{q&+NzU@&KjV{%Ok5>!a88wj<5gg2b2DiXCv4WO_BOwBU*C3);_
z9YEO2KGxQdqdnn|4Pn0x09ZcjO{Eh-%T+%RO`uR&MxRL952PG{yv+Apk)ps6iGs)#
z$ys#NS#-)-bjn$D%2jke1zzF`l|WUxK`D1$DQ8{<ruLk%^a{FSnfi0aau_3Z8Ka<o
ziJL7ED2Mq{4)diP=1aNDS6H7BjvNb>Ls+!i6|QK?CGF5)Y9L+{ocH5J{o9!#UL%gM
zey%BPyL2jc{ke_>acO0G-r(Dq#s^i*N=ZvaEUd$f>1Nu(AXepxiPcRYx_lGxK>b{j
z6_RvIV6j_<Mx<K~lU-6+UQ-qVSY0ztJ-vKcVwDI|&Z=NyzL}>+%=-YbH*RK)s&Av3
z+>)m&&KbX?mu+M`p`t3#vw3bbf?koe*9kvDC!CO_TAipwomHk6WMW-~Tf${v*2sJU
zjr<k37dI#$>)Y!Qenz_r%u+T^B_Hk7D2Bt@>VXq-CY|=&x38)PrkeL#7qg-uSORZa
zN;WlRE*T$E{R^b~^L8P!t}_9f#b4Wq1oH}&HuT^26A8Nt$(;(k@SoX_B<%dJoC>_~
zpLhAk-{<rdT?N~xOgfhMFKHdSrL#%a%DSkASigcovkn8nHvmUF0BT*+Y%L4YWN7oY
zyiYgPk<jwEtPjkC<F)0<p=px#p1<KY-Py`S5ZxMT>&9;UuHA7e_DZPFEkoTyIz_uT
zJ`1?V^jD%>_h)5k*I5r%I&)ZY!MJ74W1Vk&ybW~r{AAYKd0uTgb<HX)BKHTWsnB}Y
zz>Jb2g*1buZuB|b(gt<c+8^)O^&PA3A5!+on7JVN1$f%EmThy|Fbv0U--wWehnIuV
zmEFp^wcD}1(HTd8o5ap+2ikr5IZha`^+8E*$BX2Gf08WyEepQP7rTX>nn5;PUarc|
zz2p}JL7^3goN=xCaly2~AXqV;nv9t(l=FqHe^ZmbeK-03WB(z)`3ezN8Y5v*k66MA
z_cWsdF=eX^N7v0u4NjI28ms-{Aee5Mp36jVG_%<xf;Z45swYEw!c!|pgQKH+SUp&z
z=U|Mo%uzFo<JsY@$wJUSrXij<t8Mpx78b8I_xjSD2KAcS{1aQZ0xhOAcl~vyn1w`a
zgf+cM+=dOgQYj|j;t+Dv5*{^hrHW1#Vv(S<2WEFgKwO#nFqoFwD3>&2nYIS@!frcR
zsK0bVhb-AK$!nOBtzL#~4c28$(wU-^+<Fbs8O`=hHR#M<X;(*$EG09+N!jU8;=XW|
z=dSK#=uF^r%BQ*t5Lr&9!d0et+B(GZb417d0RX8ixT>|loaVQ#Z<vC$P+*i*t%hY_
z%Jo{@leyTWqUhpqcyK5ccfGgNbo7zlLS_5C6Op;6wC+jPO+U6QMJS~eE^gdsLLw*)
zsMb^yp`a@#sy0Yn9Q%VnUhTz2UhP{Ab@ia#VH~up;6XRk_2a5RGVT~MQ6D@eAL{0B
zrtl2o`hE<<k9AN%0F^GBD67%I<4f}Z&pHi7UYr@3KQRytom_XQZFHek?uU{gjMgm6
zs*&OV&!V;ax7&qRWy*BBZTl4qqMlKjwBd_si*5=gAI(`#%$c{)DPf*G$=1@`y%_KK
zwz@WMH6qcaW8&-T?3_93J-@j>A$mRtywe+hRgv5_i#8X_@Q!^-2k|Au&Z6Ss4te+u
zxlhD#FSAq47||xU_`OzT5xVj<^rj8%OEBi{6ByBSx+^1JEJN+}QQZ_o-P9&J38zNS
z3cCG2%K6(->jPcgALKqf&hQ>kYo)s@VPw#Pn*(I0ct^~@G32&%m|;h^Zeqf`u!na4
zv(3H_eK+!A{0#$%&GUi>h5~rny^>#RgD@1u**7wps(YMvf82x6b%Sm%ml&@lXp)j#
zyU|a-+IEz}Cdi=V<&eY4`4JAhl-rVWA9u;>sp=O&y#vNJ&PvciIvd{BNGM5J!vbX#
zDbcAN-oS($Z>*CDjp({c$aYdT?#(~ai85Z*2xs>YUybHjNVY`-o*W8YQWip57_tSS
zE9rQ0-`>r$_m9tKy?g^MtwXN%eoRg%^68)jS(g?k!3}=VvD}9+(muQ`vS`f~{!z3!
zu;6Sm_BxO)4`9U~9Er4Mi;nn%vjhDME@Jn*+25Z?IE?;8r1a*hJjpmu`ZI#7Lcz4P
z@XNLQQXVy$W^=6i^`O21=Ltj1q(JHic-qC8YjfH-6ozO25jMs)ADhc=v(qwd)19IH
zq7gy{E%F6jAjz+<WN@&9DUz&ACtorQ?{nUBd?ZT;@NITG+s(u+k7+XhxR75*%NGy?
z6)O?QA!21XCV3Uarw>2{8ONiW3HS?qo9#aH5xA<K3H9|L_+D;s@hBLEc`%m6p1}%m
z0T&bxLPbYZK~`%)pNFu<1>O(Qr-TEXSE4at#E3vJy~7!13@_Vxg?I<4gaU)2-1`6~
zq!1+#`V&=m{gDUi+mw-E-O^9^>7KEYMZAK=QM@q}M~_MqjA)5ed6obQH+@c?l$sNP
zo%8|2yresK1O1(A#fT3G7wHs1O553&hU&>btd!LS_jZuhg0mCGod&kkrW^~<>N;+!
zepuo{T*%uF(#qRTm?$A&&`ta{@h3xd@<}xbgER;h&uTkTr6<M8nL$#(WtQo+=gg49
z8DTaKJwW1UID`bT2Z)b!h>vunk94GubfkxL#v}++50n(hVlYK|@gjYAiS+vMfl<%M
z14geQ9~eJL5l=~R@`49H?@0Qojr3C+>8CcmZ(#?Fml99vO=5Uf6X}N&A3DbaNO}UL
z87p&rbWkj`#%SY=iU*xPhMs|@Xbl-e>i-(xaCbJ;P3zklD)Wj^%nsK!Gif+^RndcK
z&=lVcFdi-OLaypEfsA0f1SC_p&_We{M<6w$q&eX^6lh(4ea-`y8}&@+zgxcfaCh_L
z=l<XP@jnoulHsw+CKe15!IQsLcIxYCC(AhxT?6)o%W{$25nfUFtp7iTh+RTFT!@jN
zve;oJBAt(tC16^szB7#PBc0qa>Ici7wae+oAANGC`>4fUczz^j0W#b1gAIJ;5#Cey
zwfh3;4HN0-)2tCxQi_oX!UwgjJm?1}N_N;|NVA#EIWe^`e(g-nGBlBrW8Abc5Eb}I
z{Gr&>`pvdhB{&-R-`#*|2NgC08XNG|Y64={m&_OY%(bu@UtA)iyqbQ2OsF^0{Wiqg
zBYfut-d~cvFZNkUUL1B`w-@BKxo?_5N*54q4#VFIbMhgxV`I#3th|{&8)L%$3G~X`
z$mKD#3*>ATZ4Wsc=sNi5nQ0Rn%Gp@gLH+iKPOT8Vlg_OTqW7xc_B$B|r(eoU7D}rt
z&z|NM{6>Gs{foL=i9}gOrwfv?4053FHkPu};xVhR(cNOsvF%aI@K9YJt6$B$s$0kF
z&*~+8HTAkrBLJE{*N3-jqSImC^a9WX>bMiv-PKE=<Bq(KyE;(E-R;#t&Fbp-+q{dv
zCRE2Ez8b3D30wBe7eja3(I?7xDSI8Ob0f^{w@A~|)Gsy+dVQ2rrwMr4&01-5;x-tb
z{v&+g<KuE<m(DibZMHMCUo^r9qT&l33CXXoWQ?)FV96rvPG%B9cn&>&Exob={(5}*
zV@$o+pMP2K?}Oz#u&kV95lCP}GW(H@Z1K*IY=hD#Mi5M#6utfiv|$0J03|tl+hge%
zT!#;V{}nStU~E~7H--RZ1gGmBXdD2_S1Y_j%N}TMg0@$VZ3OpR6F9a!Be<D)Y-XOD
zndfHaxsiDXTXtZC4**XM@Z3<Jo9Vl<?#&29{ze3{_RR=Phk%WTK=C^=xQZ?}&48O`
zz)dsYh8YZtJJH0#kef1i`wMAA!Hp?`70D90iVBwK8AY2OBwo)&IG~6Dn!{8Z8Ai{L
zz(~9<p|BGgd_}t{AsKONil`IjK8a6TgE)&ILrVaeE;5nV1yJEz6KN4dv-qWlsK?V+
z0&_i3AgYMLMXYHvj9?tshqvy;g+>4OgCKNT0BI+7_?cupKQ^1n5Lu(5-_%5%8r*i{
zzKQ#Y)eN$3$ZUzyK9B$a0RjYS0~^Dd(?KV$(X>A@`8B4SPm|F<|Gxg7JpB#aC?m)b
zA$yEK%&7k$<`wbrYJRDtB=Vw|WizP*Xel)E+oW5?T{$%z)T1npQN%2Jma=Rn=M0vS
z5Q|>`KFk_(>gbJoc0pOFr7wsuSC09l#HX$dpwtWWb8bs{l`wyTX&%Ej`MM+zZ$>_x
zpaoyos6Q#zm7d{|IqR9ziSiO+Qp8g&6;<yKw_t6_xr5eKstbRKR*=Vnzx-MLUTQ4V
z*I%7TqMOjRWU^9Q-E_Rh8VjGE+2l6NXO1()RZ!1uZq9n<lqjyddQPc1>zPw-IH^TR
z9)5#_VHi)hHrkf7J9AoVQ1bpsmIA(i4a6Txi8pfzM^HNlM!g4tZqdtVZv+}J#g?^!
zQSInXJ3-Y}>nJu>>9qVCbXo(!QVC8v1&tQOgO*MrwG`>~ZqUI=egPR@M+PggEm^>5
z(*mEVl$clL;#0nm$b2f^Jixc=@~uok#k5n3;3~<Sx}BprZ)7#vXm7e>C|wprwbs@{
z#oM)D=5%-$C!-x`Rrfwt-Lhr<AGQ;xafHQ9Az=+q{yja(U@rPlE414t6kJT`SiQmh
zosA~olAG`zZjN_U(0)fL`)N)!_rG}Xj&aGW))o=`NfC`^7prJ-H%l6&6y4jD45-b>
zd*_^Zwbyi?A$@kg$Zzu1VVZj!YfLA>O$*_nSqOs>{Iv{G(6ppcp24lk6SkJ;!I$QK
z!Ls%bKO4`iHTDhqhXC$>8BTjV<gQDtb-LE_0AYoR=&j{HJM<=LTGvH~F>D&ZTD^C%
z*|!EV1rWs<HDIYn*#jOfQH&FOJT>aWQH&$Y(ZR<?aSL;HAym&GTB1{hx;@TT&O%ZK
zo+gv2ZtgA(Q;(oNSUu#~kTv0_1K;YDRojfTQ`A4l&S#IaD@ghR2KltMC!Q%ihsvim
z+6qi1(P@uz10i2gs0vclsJR-oKIAlLOyS5`Ti@wtxETX$aO7;THO`3~#p{1BKf@37
zQ#^yJuH<D8OGOXWfq-!y6;s1UtmMPr&-cb23YNY8|HBHwXktcq+KUhJD|0S3%Fhb%
zb8{?BPYH-OG%n4{OwLb9jn7O;%_}i9$}Enr$V`bZE=epZVT>oJ-V~}nIX|x?Gp{ri
P0NWWPGynhq00000^Y)$_

literal 0
HcmV?d00001

diff --git a/nora_ssh/default_16819065619406078715_0_16036.profraw b/nora_ssh/default_16819065619406078715_0_16036.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..cae11a3fe35231bd6b58a18b2e100c678b0edcde
GIT binary patch
literal 312152
zcmbT<c{o<z{y%<HDAO(Tlp!L@SV)PKxgtXmG8PgcN`^v`$WW$R3P~bEcZN{XEy+!Z
zWQ;No8Si8)!|(h1e9r27{nojD*R`&7{^@ky=RD4OJ=fZ6@4fcA_YUzschTGP!a5Vp
z|NcwlKYtEx`Om-k&mWmQ|KGo({;g#GfB&0Qt@Z!;S9$wF2yMvvy5H1L(Au^CR_Olo
zA94QY&nATxwKSO@>sp29Q&*NW8HS>@{r}&8bg`Lt?@K9$pF(3i<oJ+cE#Uv>fA;_T
z2QBnZZVSsA=T`gvb4dSbC-h(YufM{MP0WFhq)QPOL3=zgoz_{8=kbTs*?}XE=+Hwg
zY#5e%KeVUA^OVL8p6S)0bG(QST-WMPEgrqr=S4zQwMzZrZ|yq|{ck@)|9AiOSJ02(
zALL(6dZAKo7}7NQpzvn4Nn-}01GlHz+*<7Z%l8|jm;=4_3b)tTVLIChSNHB#Os&YS
z*%J_?p0Py)(E;NU)Mcudwc~|m#$LX6rr#u_ea!q29k?#u*vH@2=UTS`M-|gC?I8&M
zig=%E5o{8-;9v7#NfWKV;P%91XhgMH%QOg{d^VI6^iH%K(@7BKvn}i#EDJfmQTltU
zccUMsW4VKw={CLZK}N5k{D)h+H>hGd#JgwTC$s0hDSGj=UV>4)Ye@qyA6D%tMt!l{
zkL*r#$6RtE?=Q!6{`h{r9#u__DvbT!)N0ek<%j9$1Z|)BdynbJ)q*#i*(>#bR56`j
zSK5NqDY6oZS%0tRKkrRhI*67Je7t)-o4DD_7sm+3Ga1o=$Kf$m51ReK*Ij)NneCH%
zbNxmzrgJu`p~<5s&TH#q*9YHH<7YK7o$G_~PrPN4pMkn)FdY?Rk=KicZvCL&$?9l1
z!}$zFw+P2M+~4#sA54cbanhf?FqQUSKA29x#N}A6Z5^k8LxbrwEnlh57~J7qK&xzQ
zkW4#GK7f}`#~3Z2^_|G%jPaB48}{dN1Y<fGeK$9KEBnL0XZ%ayr;xB7O-v_yhhUR>
z(q}hX_b5qmKCcBDOsD6oo#2ftZ$$So3GwVbrE{3PA1|NK$J1#ge$@vD1&IUBY2?&k
zOoxFjxukJ8IUlq~6Vo{`dBWp`^V1liNZ*>NRM8_en9duy^u9;7hH=0ltKsESvMNFM
zn$~0rIKh}s_@vK+0Y;m2;AmnxAD1dhJuVYUOvVUPd>_(|&|o^pS4nDx1qR<hd&v9n
z@)=*8wmbIy@I&APV>-I?v?Xa08XJM5iRt*g`E4jL(wzq!8cZjLmH*hOxF`3{dLQM=
zYOO3KtD@zz0bCgV=g)9C)B8#i>vALUIZTXAmuBJ+9r%0-&+`_D4t&0VuM>DN9r%3F
zse+ad+#dM)nTYA+H#BJQ7PlyX^Qi@<1D|(zF&)}vhxW@F2g#${U(W4LmVVc%jF-=$
zGD6wyX^sux{7%GlwkgTx+}vh%5}cPUFr8zUlwt&(jYq)s4=<*3bcJv+;X{`P=&#Pb
zc==Q&R2{s#u(35zx?zy#E$ILe(@|r1s&pg2{V+J*EifJU`iB?OIaTk}S*1gs{^Dl9
zttH10*|`TTA9&v2x0YJU?hK0h;!&O(qBHU)1JQx!v2BxC6di{jrj?d|Ro>c_(t9F0
z@bT{Ae<&`$$mrU`(-*X3?ymF8V>(t}J&6jd%(Z<92OKs#BnncM(DH%Xvz8=NKHj;P
zy<F0~U-WqpD+$wC_7U~hPAN4|l@$*!V0h{2iRpa0S6r+*_%~QJaG}!p*}1#&n2w5~
zt6{sGGjnQrT<i3KOcGTQFCXUEbFbH8h$L{llQ5l>UFj^kc0y0UIP}DH<bt<z+U@wA
zXckX88=oitS{~7X$FtdZs(8x9Jsg$w+btzeB;?T`I`HxJt=9T3he`F<QL<sE+~DOQ
ziUL~B8=>n2`_hVYee%0xJzX6iMeujKWgt3mT>;EdJ7(US+KvR%{N&#B#=sNNf$JKq
zk~H7&Xs)X9jCQE5mTQwLq5~gasz(%l3aI{>t#Hn{M|$u<dr2NGAK0l{KCMSPX=tS9
z#kMKy`qNM4m`=vC$IkgPf2FdbM<?k@=@k4ho$nWo1BZ9dF5jwfJZnE=@=z7iIT2$<
z$7k?+St{d%_N<ej%90#fK5&1%os+ZU`W6}dN=L%k`;C@58PS1rrf#{@8t39wZd5H&
z=y*K%R4}F^!|UD1Sjz31Iy5F!%XL0P6Vrj$4{0zRc>Rzpi<UE-54?UDjOoDZhnkoU
zye>h5>A?3*<lT7r@a>usEY*LoexTIr)}YQ-?_f-4Lh#Ml{a;$fz|q8XY|pgyET{<>
zNo{|imdaWhNrUP52Q9}p)5sbEhrA0fAN8U0_had5z8c4-#XB_8?F+_q=;kXAg`cjU
z`<D-*1J4^P^RioIAFot{x)?E?ZPqb7CseLo0MBKbW$^OJwJr_Hd-YJH=JtzIhdGt1
z;t-up(D@X;uk=K8;NxBEg6f;VGYW6O^AveZN4V~3iLpJe8+e{VmBz~lo)1Zw4m=-v
zVmk1AD39sD^C5L7UOw>i0urVJuakIUI`DG`c}xd>?m(5o%SXGz)AY}!MI&(EO~Q2G
z`&>^<hl%ky)gkc3ZqOciOy^!7vxHaEQCHwlCGql^qC^;p(SEc54hhqNpF4PBI`H{j
z9@BxJJ5YDv<pZyWlQ13ldczab*|&owvZjnk0qZvMn9iHdU!)Rl_B+6#O5o+QKa__Y
z@M2aJI3!F*pyu?0FMVFGz&;R9L<c^<J8axmAli0(6ztznMRefv;B>{aUwvg3Ta_uy
zohci3_b-X#<wKFo$?;W_PCj_AneyC_$X1T&coj3K&9R=5Qr}wj?p_92(ht*tuM<=;
zoo<4n&E|LarNMRG(ssOj?%4~te(0^3Nl1yfrtjChw;a=%zaq6^gUq)Y;P_!W@2z?2
zBOH8W@*T?617@D(t0Fq^`UX|U*-y1w<QZrW0n^dZO*mnFMkhdFD#ovl^3#1x3@>K|
znd3I6zed(qK7D=t&j;hQ97G2`zTkBLPecbkzTkBLc|-?pkKV<GZtiuS$JtUJ$F|mZ
zvoDF_<-^6PFQXK-Y8-NI@|%W*zePEw)77tY#CtG9uw~<tBNv?(lOLi3*JYcYl|3-E
z;U}+xu%@~G_Ai=<4xBT*E<uCo!0RMr5xks(!~LTM2fno2{O0}1`a$>3U`z+TFVMtv
z;QIm^Ob5O%APeK=1K$?}V>-T8><n*dCoX{dI896^%<+kr$7~-jxR0a3boygg=a`(?
z3c<QMc^h6nl_B3ngy(aaO;dLL>f)8-4#sri_m&;JpYcl|_>ReB6X!;MO-x7qi!0Z=
z*Q}y6GOw9ZLgNi-Fr7{8ZWAKLJ|TKP*0QC|Z2ibWc=_BZKXy9TE>`xDc1HsJ>4M;3
zL<gRK(n3o9%G^{_tLFa8vp(3;sfX#<Hq0@YMbq>>zJ5t)nY34nfav_!JoZ43^h~o%
zTil21qdC*PhGs#ueBgDG#q9xww{q?4A~huBFDsq7Ktgoj_Q-Rx)-CM4+X0?~cp^IR
zbply?tV>(vb~zY7dWa6(o?btvv1ZQC?O^;cVmg0bFC7;q=*LUW`kr(@q;5$OK+73!
z&*aaPlJ3M~flZ<dzAJCqsS%it;Y}t+fnfs)`L1&>!d*9b>R~!9f2-g8abNJfe*UDo
z<$)_TjF^s2$wl|Q4#zkT=&Fy|a-7km@Z;qJ-!DgCI`I9n9;O4|FEe5~@O>_Y4=*1v
zD`l}$3Dy<h_=-Su;N$D@sniH<u07(wvBPu>y}bVz#0ByJM-|h7`-_0+z{i*6Y>W(f
z_Jf<}u}u<c!g<%5dC_u)=XtubC*q1zn3sS<#B_efN*c78B_@G<><}Hezm`rf2<yen
z&jLpk)A_HQ5gj<^aH@sWk<cNgut&azn%}R*H}jz73_BdVUf&doa|i}b9H#Sa-vOov
zC(^~Oq$fHxZ`5iSV>&7&HqtGm8d~5GFrDeOGGG6j^43wz*?)$ld-gPQqvZpS!@y7)
z((L5bb08lgq66pbO(WiWd-iH5a4aw#s|yczWG1&>0S+&wQ*}K5>f%mQec*I*q2&YD
z1+PmG5gqvWdbj(+@pgrZj+7*!)9h={wtFHvaC?5HWu*6q3ty*gd8PK0zF$rr)46%Y
za$A7JA!XoDIq~v|iP*LOw_gq$cpgW>baDfu;y5<y1}>T$cYkrq;jkyB^IYM3Vd2#H
z&*B|d(r9$}YUME<nh$bn&xL(&f_*7e4!nHolzJ#yjx@o*Az?bfyJo7#Szh{s{VkrD
z4t%{KkLkecW7Ms9`M~RABt!?E$KdrbKST#UzTovSRYV7F54=7`gXqBRf!D{#?07lD
z>tn%)4qO+!KBkB0z;(gvV~m&%ygo)D;N=6ak40cQ*TmlDYL<!zKMkmOR>j`$q=)I4
zk1mZQ*><@q)$ecI=iq;m5z&GB>!e}hSC?ms(g{ypxn&f}xSH9}@?nSeISebgZ|S(0
z>&}wrAjR@r?JfbaJ#fFn_g|>(fgOr|kA%<V!JOQmpZGW^TYtnM)&=LoYqj`j+g;-K
zb8|P?rN@Yk7MRXs`}kvyseJiholOMMf$KVJx?}gjL&q)xr;in_zhK8_v{^=Yqh%;?
zGBBO12QHc?s6>ka#}3nR|65};*4M-i91%=sQ|&Ihh=kCkYvhLyv){)Y?PEd9#}XRP
z&mJplZ?^8TF&FCMFfbGfvO^rt@c5}~*i|_t)%ucN_{{nq`T031L<jCKmOGjov^qRe
z3nSfhR8KKlj3JI6MyM{yF^)#bv6gKsRl&PlYJF?_5FNNZC)=c@rq`bNr{&*s-AjD<
zJp<7J?{@&r5?+4T@VKqY<%%D3VPUFJ4GGbK+q2CgpLb4V*=Z#=ow7}g9OQ}Vj5dvy
z?QP^}=shoCaAJn9K_1az1qJ=*&)P)4H)H-^``+D5Ib@pT*?>B4z;*d;UtDa{S#Tt7
zNUZiPj~3xYY!3s}9yyXtT#)FGfddRm=|Z<l%^49Lcsz42zxo{fGb!Zgi;}q_&2{r;
z#N!lxU%}jog47YAN4t48J=RrJ4K$NNY!95z;r>G#(;n%Iy$?)&@+*__a}2RPurn6*
zhW9*2y{e9vpW#o2GC~ff!?gcVCwuSce4PBNBN=}m?{mR)nyX8@AC+-t>aO+vwGhpH
zD23^~=34L9EeJBXImo3aEj1uMhBzO>`RG1~t}Q4acyE+bd;4<ZQ>`3ChZ!1&CEtDx
zT~?od<}*{$$}V1Zi;U>Nzc1*fO|-qRyIA#nqYeE9o|@`7L<g>GqE_qJ-0savLd%@&
z0_(40j1e99{(Y|f&da;eOiP5BgWV!^9PUzx4%{9G|Hi-p8HU_*3N{D!g)-WXF{7Qo
z;O8k(!`g2<?+B>$B<ciH59lsa5FPk<|LRW9%qywCch!2Zvbs-$FAmXx>$*E8s@gf7
z;833adZ8|IrNJ1}dHRDheWt6x#z(%xL80aR3j(I&GD_r2?hYk6M=fUFm3=SP%!HOR
zTvy0*MceCXX)~Qs1Im7S$8+Nl9r!&tqr*wUd2AnOs*lAm$Ws=@{16?uJrCdQ{rw|E
zLPO<Th!6L(&#tP74t$)Jr&Ap-_*+$aRkl)s47BWw5gmB^kbgYpuc!QyQ9L)S-sg~3
z!;9#^byYd{)m|1F>8-L=DScIXKdf^LT7SXkL4Q$!9JNdplaPI`&8kv7w<w4XJpa6|
z?)Z@*vTK>E?6fOy!;%gW(GiE{!;r*N9b#U;b*n_Ko{K+TY2t~Q&lOpHIp?E)d@gpF
z>8Mt_?~%uJ<TI#`+yb?{@2-v&&lmsIpd!`<_m{*_{>lfYJ)C6GR*}B);#Lx-bE{fl
z&%R(j!Ab|KpD+D?eD=h2t`sF&FQ2-0+ELiW?oWivE_p-;o>zHp5EJ9hsBHXw{F%hQ
zZ|33zL<i2N<Ke2*`mU7rJ2oLU!I=l%Hg857&#-gbw<N0mp_|~rc5?sOcS*nF5FPlq
zxVKbU7DtU?S1)kf?Ak5D5RB-+$NSZHcdM9=DKtF@SG+v&fmcuu(Sh3|>_1ul)%deZ
z%wnNPtb0STDxw3ohu5O1g~$By?c1~Ve&>qXBxn#FIOjF3<W)_!qonv^@9r5su68mb
zT7SWHO)b2P`aKq`Z##D&GOwTGFA33s=bsemIS%e>6TzCMAp6rdSgr;mI`IAArmZ!*
z)*ik6X~HN>5kBj8#1GMd^Ldmmtbbs1pJwrKpTlb+VGmU?9i6uGVFxzc<yhW#VVXvO
zwS0*IEoXjcUX92)&*8*kHF2$0Ztf^84Lxc;@O7O=cXjsBq{++QU3<SareBe;K&%Ts
zpBm*Z-5lajs$-GR^*;CWx3edr1LwR#iU{?&urCL!AIc*-o1uKPwTyyKm)+WwmB+W?
z3iI?!R0nR);GPX;KK5<`nPHW78llH*sEGXqI|gDgi^C0N9@4jj=z{FF_K`3h`>%A4
z%@IfUg#_%H-ZdgY>xt;V^Ze>X6)KUKPJVCp(JS5|wAL8Wf$O^7p)x&}sPdO6&O0-H
z%0QQZ>2R`ys8p&N?F(D}niQQoAKOfic3g-;{a)BzFs^GRGOlo5EtT*2$MiVN_Eb$Y
zGiBb{$g=sm1bcfh?;qTJ7`J`wOtpQwc^}`muh;84199`Y!8n?)nZq9CC|Z1ImBgTh
znh*4PQJT%7sb)LQ`50WLIwf_#lThkJ%o#rKd@tCs*}eD30bkG6tgwv7uQL!GcpSp}
zC4vzhcpSPE`S&zm`Z6Y8m(kL7Evrux(}AB4(qK9QR%V{A;hN4vl|1sBIX|ByZ$cZ-
za9ssA4RtwMN7I25jOi>p)h^Zw3;%mhmnNq3p29|`c6Lqt_ueN=XRnEtlY5y_7pRN8
z5ig%1LsRmrfXhNBLcSf>2}t}LjOf7Q*?T7wo2HG-W>A+Nq67DrOqu@6@qW%4@Loqo
zL<epU_op-G1@7{zf&IqK8}RbcA$arYZ@D22oH$%3D4jVXhARi;V~pvr<W;qf?=8v)
z4gu4NnGP=T$dUR9oMt+_e13l|>|fpcN$1S{#~#|hH~fslbQJkTUab!eF$2dK)43h5
zG-$$dfCbb=z;yE3>5RUNI321u-@k?U;F3=>EnYqmZ9$eJwl0OBt~g95vy4(Xwj)6a
zIL4UHP}t@lR~aoI1BZa=)Jo4rmN1Ra0H>J-FQ19$)vcP!fhT|yhv`&OvrQz+Rjw6p
zV&0f{uyNiP)9Ggrj-4-<HU#r30n_2WT|wrOyORmtGugbp_CEnZms|h!S9m_`x|Gg3
ze8(gTIB}THop;4?Z$2fn0mm5ADSV&VAYjLS0yqRr=c`)#>Yp&9o#6eD&1-o1lmuwr
zv3+E62%InC5FPk@L6kc<dDX`L-+M1D5FNO`KIFu?vDe7m0r~J^Isy9Ox}1sI&wz2*
zxr&$1r0Fmtjn|`HARi*41Lq^ULw%&uktYf`c9>46y|4e{-9;+Ek-~HcJ;&38udi<c
zIa62g@=5pIZb)92-vZ7TBupn`QtnfU^cF4Pcw#z!ygHi4)Q__PM;_A|`4i6ENw$9l
z9O_@Zd?c?tHdx^QS`Ye*gy_KI=W^_WUV^ZAB5?dLofj?l__{ybwgQeOrb8lGnpU`8
z7zPd_rW1B0=&;cuvp2XtZ2p6nbIl@$S%+*LALy?*Oy_H!pX&DCCi<W*V?+n;uhJ-k
zNP)A_(ZJ!wbc!5R`6ESrY=G0ZjFu1F9<CQOQ~O`=X~|5+AHSP8cq<3df#>JIlY!j%
z{oC2H4rqPu$SA6J!F1r?drDzCwmFnZI-kCiAfK@%ynGHyMeezDW`Dv1Yr-J4F2az6
z=)mg<^uxy^mzXt#vX%yvtPTtf#34Fx&Q+^MC977PR9y|pcO1)PBV$a*{gHZJ)A%bI
z;1DpK`*No4e4Nsp;^lklczejlnitV>hU;S8deQf%$AK8&#9=x%k2z=Vnq_VUjxnZl
zCq1FNO5kxFa0r-=evWpqdE%xB;50Ab<zrdG)UUZwdJAykFrA0a2^j}922+4zjOj>)
zA6-$g+MNv?0;Z$8Xxm+xFeC+>=6Sq)eqMS|xKPHQ37j}gM{wqq+Nj{#1aOQootit0
zN0hkg-U5e!=@h&k8d|Ihlm$-n99}-JC0Bd=z4JE#Cl1s3csFeA)wyv~;22{%3+Yu)
z#EeU~0f&I;c!<t@{&vJS8aU0r@$!jl;S{WEJ2M2FI80}&<lgIjBhuQyF~)S3g#8{C
z+_tl2FLT`aHumKe0;WUD^p`I*IW+T|fux;sfWc7nEM7jss&_k<M~(8p@3P}ComQhC
z`8k~A{lGECbUwT8PI+U*GXs9#O~7=#)n0$AXlLUGPV+Ckd^(GN9^$4|Fb3}#h(mPX
z>#+(h3n%)7xjgWm0SioLuD3`d`pG#j@O}UhL<hcZk!vu0Hpr)vw67^NT|-26m<G{-
z&+lCGBP?zXNBcoOWGY(Da6b7i_BTERojnKgiNJIsR6<4~=znepbr~Z%a9w4V$L5w=
zSC~Ov1Vjg}>sD7=VC?wLXi!(@3|>AAl0%~7Q3|u5t_(y6u4`kdkZE34Z3d{z4$*<@
z+RvV6ZFf@YET~Hg(>dtR$(nq~Pa4!kokq(CuB(yj<8xZE6je|c3DJS;T2F~@&SU$i
z2<q~~bXuz=_ph}xvw*rZ5goX$_B#%A+y`faL0vS64qR8{ByH(VpUh-X7i9`9XV~Go
zX)<?9J)R59KXHf-JpWjc5|pj0{BD4JJP{o@A6@C*=rMnrD3Fglq662Z<W|hLC7xIa
z@>!b1%cpE!>tjO5@7Ew7GNJ?LQ_TNsSIe1sZIDj}q66n6Y%Mif65KBW^07m7;C#~P
zy>;)uZOjJwNMSmcj5=>_CvCP7_|cUr-{vn(oxsa^DRY<jh#22XkWV?H1Lsp4{j)VT
z$9osZ#}Cng^SN|z`#Cwb_c0(JO-$!<IGsGRDw8m%ixJU*>-zpePT~FIH{zf!$~a!m
zA|oCA)3@y%KwWW|&en*dv$m76Lg2WtKy={aqVRlge7Cuz5y(ds(Sh^P_%N}O>P|NV
z@>%+cmrqCeW}$AwqC+4bGNyC-^=q{$r#Dhy9Vr6S86ohCq{VyPw%mD4Z0MueSz|;8
z&WEL(ToviL-!kaw$KOVJ+P?{yj;_>~+n2pcW<bu(V|Y1RY2CamLSsn;ITJA*I>$ct
zn7?)&U>w>ZI`B9Yys!Vd>d6ORFb*{l9XMy|yR-cC3oKDiTf|O%$qTin!E`EWyIsq@
zR{B8B<Wanwvt`G;a%+r_f}A68ojH+G)=M5`;QeF9hz^|35|d5%hNptz{1u!|?yZG-
z1Wae>mOlTlmYkE|ywf~_m(Swkho{~?c()7mI}y==>q=Z>=SuHCv}vI?kx`nvrNaWz
zf%h%<NJKmCelFz>j&~_U2X4>c<}Uf|i~=Iycpn=^%LjG@O!GQ}{mL$aahQYXz~|Fr
z2_ub%H#9Yaap;NZ(0qGYVb&ph7_>(f(^=r`@zJTc^Y4C#2GgmnvNbw&{+%WmKa?T7
zoC`ItE*!G14ghsUAUbf)e~vwA)p0yj3UW5abQ*)3ZxW@?yMp%cVmg1+Y4V~hM<qae
z`UcVRf$REW(N5n}mly`-pBzL79?uzcW0vu}ekyr_VcXUP`6FB~9h2f~EDm<xqCvk)
zVLEqyRKAr8x|a-c9vi^R$IUEMVo%8qeULK=({W^O{&6_k?h~lX57B{hj=6nGrr?6p
zUr?7Sq67E4WV5pC&XL?2P!|oRv#{lY`}nz<DNq-sA1!CNuFWs*G{<c1%8XZ?$zZM{
z2t;5yq7|)bjG~qofTM@$Wd0a%uiKdO95{@aPEEb!xOdLVR^U+j@bb~>)%R5sSnL8$
z1g69B_sQ~9)H)Av^e`PBitXsLXjv2BFk(7_2L9V5mp1MK4y6|_pKXi%OdP%q%)p7j
zbVhiaJ*7odega1i)9HJ-SNG4jKP_+=F&)<Bm9{R*h7jOTe&FRZ%=hkvYo)3za3U}r
z=`U;dZj64@2hRU_Zh*D_kRx!nt!NN89dH;ioiYiVy!@Sqe1Svxj@KS?b%p(t>lyox
zcKL45yZqx&1g7ItyMOhb=ZMFvn)sY1uRCmdn2vu0Ey??Im>t-kz=-Ma+@=w6*B?9y
z97+#fJ}$SOJUKfO+pbYZ$GyR@<5mQs1D|(pB{lXL_9uS?jxnY~+jR9z#^0(c;P7HP
z5B&wAH=8j%1x{Z#T0U@H8s@w8#4Q(=fs=#jj7aXT*eR+!1RPIHNBifU{<Ci0ZNO2*
zbUuG0kxG8mo&*jJrekWpK|xYJ?BDpIe8bDRNu&H-mDNlKXiprbbNtDRxN$aNcHmfG
zI`+)3v@YfNv;s#2)5%V`?RcqLJ0Cb>U3mEnvioU=rk+#<4hhp~^Npjd?i_9bjvuD8
zb}RPnecd=A;AmnxTQ}4(+KHMR1`Z>p6Kz~+mZn$u4LHr6csZXo=(*hUW$Op9&w+^O
zz}LN$O>R2-cYNFp91Be6ezM>k^^VDQ;P7HPZ%$Rak6xj937pOjw0z*Y;^`yrn97YS
z0f&g`2(*Y@I#SpE9XJ-44)>4qKW~__WdVm5(>Wr(oAvK$)_*y7w&UfaAGA`gW-mGi
z+C#*2x=!v<FAd+F1{@1aXHh=#>j6=@Dd6y8I@WZ5{neGd7l6~*hL=ya<b#(%Kb!v5
zMZ|Ren7$}iI5Y9jvA}dP&-HGz(tLOb)WwVGh;*OJ+L!c80yv$mc=-e}rYcS=g%kjX
zi0O2nO4-ldMy&vj1*YSE@ug4b!MRZ2@M1bcGUaDD1Cyn}zOT-&c=@mykQ>=-O|8Mc
zFCwPXO;P=JzHYy!h0a08vuhe(Eij#;i-$vqGf!s%r5gr$-jWXRVmfw;3?;|T=&ytQ
zW1TH{`MkYV_v+rpKaRj5VmgOp`cvt;Bg+2Iec=Cmr^W))+25o4_1>oon!w@3be=h%
zQYB<{2ZHaFbbi6hCvbevbpf`fgTNtTIz7+N_plHQwZL~zEHEA0DT#~~t8WRw;l*@<
zT9;n%dsS<K@27M&<K;uu`c!l@sQxK%h?ve3@)mAKjxBq^cUUYiof{gQiGv0rhk?V3
z>1?J`pPUkAk_F#$>1@Kw2Y#P05z~R+!(f5w!0%7s#dHjEd-tZcwf}q1K<8(?d_Fu|
zN-L4)3<CW{#B{bzcgYfF=p%t+f$8|rIeVDXhqD8R7t?V+xw^EzRu>1H&PKd^y2rFO
z80}G42M!U_G16o+XFor&1&n74Oy}w>O<%(Y<!hilyqJ#EuaI=+@X1r4J)NKM@=?u^
zt9{faS_0Zb#B^FiUoXuWd-ns!0@E2k&DC>DTxkF}yqL~=;>}|L+pD<#<?|6QAIEzI
z?t89zW`Xt)F`dhf&qAdL`%A!n8w*V5fNjMo58ku-92&Nri&{1{yqL}z4yF)!_L3i<
zuFeL$eCTAQJD=UzaUbMN#B>bB_C?#aFuDswM;~N%b11gJbP_h5Du^2?iyn#3VPb5$
zG{cMN!0V9l``y;%-|(b?ocrqW@`<pk$Ya?X{ukt&f$0d05H9jvliLm)J4{Ej%OUJ+
zqI3^%L@=Ey&X1cK%A6E{(?`L}M^@z6(`Dj?Sm0z}I+>Zz!x*+({>#}8(~+XQGZ=ju
zWC6yH2%-azAH$;L<3Uea|E-gZ)#2rHQs}<@AKIQf;C?U%)A=0x%*#E={5^17FdZ*9
zmGyKr!#?0hVLJNfM?N#%wM+!g*ay6PJ}cdN!^_Qe4LCWN&Z>9(#9NtL3czu}bgucZ
zne;O~`}ey)DNN_h$&o&vyE3;yd&X+<^64qvcj@_b&?InjFrB6sEX=x>=&u9E1=Csk
z8dH2+$*u`FQkafr_04>NP?mq|NMrBu^0Dg>^EOEmdJ5W;gXtVlUffY%AH@nB7fdIH
zukgsikJMYhk-~H?9lB~#FJ9LQoUt0be9q`eER=7)8~~ggOvipnFK6_Qj3{tiFdaL-
zog%x%e_jOZT2h!!{AsS1eX$1?!MfJiJG^`z7~OjQULaf!T>s=?I;YvVPCV<f*8Zz0
zOE)V#OLReWq@XtxZ6oiQv!s~k#89MUm|n)^+hOL@6S>l4x{y(u_u}^@9v$IT5ljcZ
zfA2%A3w{n#XYxVz@3=Kj3y;<v$xg4e3`7S$FWWfV%_f9oeB7{6CZWSesU9_F*!j`*
z_k_&@)1BaZH}Z(>f$JLmPJgztHtPUzsMUDmkf?R?^itxko4_GqI@xMQt$XVq4(H~5
z(Rs67LfI43885NwJ<Iqh@)YsNxiEnTo8&Q_!xYw-+{qQ!r2F$T<f!3JDj6@I+cB4k
zQaK%jQI|Vc&MMz#BVjsJkK=y^YihqgC~)8GvXMgXiRi%N=X}z`g^m2d+vLr|RJa^j
z_NyW~@c8k6ACX|%F;Q+AcJTMJ`#Uq1-s0u+SYu@VZyy8seZSM5fF3QbazqENi)X_=
z$2OPZ^k^g2OF~H}6oL^QxULWVze#NB_di6^mRD5>9O%`=bT(cqiEF<%O5DZADfOcC
zyb%qi6L7d~Kb=pI?0naS<y^H4PI47q&O<wL=JU*QUzzNFx3ZwOc`O*wfqxJ3%yqcT
zdA@$X;nj^(Urbx=><}F|=OfgmaJ7*B*vv@Hz<q8XXG9Pk_;&$n>PHsKL&J_oS3mx`
zc4DTT`UWqb&fTwfHgDn|T|RJcqQA>SnuO@U?TOQQemjRgS;?a2Xid!(3P&)a1LtG&
zvvSo-P=CwEdtC2cZL$o~M0DWyhkqy*^SV@YKj|LvJ@ZT6&~6Jv2X2pwY1P+6{od*e
ze_bPK)dwee5gquw=&8zc8(&z3e-F_9HN5wg-U_u6ufHY=t24WLJ+jAWcArhkw(KWi
zI%hVtT+SlJCTDIhV^!Th{M8fFX}Q-UwU`zz^)^sa@y5mY4tYcep2z$QlGjXaPHxO;
z@~e55J+Zv>8Z95#`8;rv=Uvys8mj&Ew%-Bu17t)8?)M*UNBiBjTyDO!ajoTg#;3?&
zOsDacUpj9rbzbAj`0m_<ksM7-=fb`))`Y9!i>YanSJz53L}?HmIG=7ZoimfpG0KJb
zlcut)8;(<6q2&zcQ+L5G+Ryv0_Y2ulhI=PCeIhU&S*OPXu2#&XBV4~k4m$qYqKE06
z$eE~dXRuFg8rW>#wcKORi0Le!Sa++xV7_W{ul<OZ?(=R+1ztWbGt&f#?!&GTPn(_>
z4E51PAUg1Qhp>F6k3q7Saw+U<tuX6}3oeKb++R6w7`#mHkLL$pfAb)1SIcfGL<j!<
zMT7pvJN(?45tT;G9$_9y+eHu^xIHDC6+27`az;bnH&ro22^;p6qvZ^L2TH=)O^PLN
zSoZxLfhh96!6gc!1GgtrrR2&{Rr*s0R<e!!QY!XGAUg2(O6V4s(+=|mj<Tg#1-)Ys
zyW@xG!0mAfl&im=Ikh%@DzP}olrdNp(ShI3zv<Om_M6h4>lQ7!uH|nhYc&xaxIK2l
zg@3E<H`coo@62}Wm)S&v=)n0z7m3`hDt?h@QZ_=8kkCz{mZ9}K+#df>#v!>lNyQ_b
ztf!dX)CH3e9e6zF1WcSI@aTJFT#DILMZavEgXqBR*-|OP%ri{5bs~PxF2eJZK`xli
zhU<G%(y}k7KQGw6a;8^^Qwr0`CNC_6)*fP#<}%575qkN^*h{>eCps7}vHsLcWo0`=
zF}uuhI|tL5P0VILnPu2#y^ERo#%1?K7fdJZ4CiJ+j@sT2zXb=)?s8m~!gQKXsw;7H
z^oCBnAcU6|H}4rMMau`i?!CWopGkIqz|O=F$*cTL^?v1u4m^HdbN0z-D|c=>cfOG^
z`s0ZvKST$f51m5ZuuuJr4d10B-kn(Yh}#a)fv*!->8ISjHdR$uK61XcZ0Z*-h3LT7
zy#`?lB`E~WzUS+roc(#9&e0$`a6UJR&ako^OR}Z&-6Fg2`=lqi1g*c|<6T~cePG^Y
z{dtYtiGBJ>qF2ii9k@LSo45@hCMnwo9==Du<m7wW57B|gPkFrRt}?{{CZ4sVo!xEU
z67>)rxW5XsGwCAbjl7~d<dik?KC}}M9k{OZult<b8I5wbzA`B*=TZF7T#S}8T$ihu
zVSc!&lk$sgVoUpcd<!!W9k@NhpF~8SZj)R4^h>>mPf(H04$*=8J@k)ioDq3_AZGZa
znPV<7!vfKP+Y_E7!RL2CO`*Q_?0v~oy>q;nPAMNn@bNqMKSwOhi*lv*4|Nuy<qTgR
zKK|wzAR}MMJbUSqSkJQTbUC5}*R?k(!}Hj+fyMUXpy|opQdK`h2cCcO=2tpZC(bIy
z-Z)zKqx#y69ijubhl^8RMk#95ION>qHw_Da3lU7Gt6%4c_h5!#%f=-~E;=oyz87dY
z!^c-}xPR2(z?YVr-@HFrKj_|>gXq9@$?$qNGL~|?rVfn>)pDH=alv%p{dH294!pl^
zjD(gCTo?RZm>f*!bZYe}d$+?v;Qh}ohz{Ie@b_-y5goX$VI}u19T#)mS@ImDSe~oh
zr9Q{Y2mYQE3De<x`N;RLo{}l}K8Po#BRl8j5^+=LC~)L49jB^lrbh(sVep=IY9U@e
z?-j3v+uzpzR~HG>5pAMZB3*nq1lr??>C8D;h&P=NcnlnQOs6Jb<jK(Ufbu<Sww96|
zsqEAOynOWftEGg3x-@p%*aiILbu1!bI`DT-JTV>lWR2vTY{&h;_a@{q9r(LT)O@^r
z;P0o9FdgAFr{pc(WB<N?;fd+QhYdLHiO4bhH-0dkbJyN|*9#lJm%XauIeWQnjGBj+
zPpj~LX>vVxdf)W<Eafn|M<h&VSuP+!z?YT-tcQDII<9P2kB|rA=D|EKkLbYjJa6{V
z7@-luagg)UGrW9wC^4eC<zl^{J>`fF+#dKleZhzheBLQ2vp8j)|D^%crHScW&^zK%
z_g6s>d^d*%(`i=THcILc{`b8$axPxZf;aECOs-1Wfq5es(@}r>sGmM3$OzP>iRt)<
zQyh&|-e`k<r$Kb!e!t*ul`(u>WeW5cB?m7bCYlqnVZw4{z=^<g);0|2T~RKe2l?n>
zIzLwHrg!MN=z@G05gj-mda8HU+TWp0;50u)%LjJg@30UtoycnCy>Ffp_JEx25FPk9
z^|ErNlf5T91{@Jg=cqz4)y6w11UP-!X!*eH;qxx#HvCjP37iZ}C;C^4vU41Z190px
zogZ`7dG(BUeSsr_>A>HC>U)Bh5BxpN3`7SWhwyi5Tri!7r>7r3YPMYm`N$(WaKAIQ
zhDk*#3W|JqBkp#UH|YU23oReGuBYnB_XC}77y+jo)1k3aSg<O%6?6Lggzl^HfDgfl
z4qVq%s9Kwh*sW`RQAaoI3Z)&?#B|`_DbOG~a6Xyu4R))Y=YJ3OA5tEp<qX&5eexFb
zhupXqz=^<g&R377A3mql4Blg=hv_ihll^3RyZ6hwspgX}<C1fXhz|UGN1-^v<&*IK
zvofkZZW*-ZMN64z`M~SO88Hdejd^M2%9({`C%Wh;&4>=X4#_BZgfaZGuxqI0Z}zL#
z-+N^sI`DoHvofPn>Jc_!!TEaOD~s#R<%kX|v|sef)PucJ&sk=?eFARRT-F)vLv-ME
zzqB!vG@XI1?{pXfE^fAQohKtYaL&uQpX!&nKXYk0P8GIA44M-W9XKDJ^3@Z^=%ZQl
z>_Xli*4h?ELUiEcOMqySU)WHixVCwI!@Cv(bw5l;{@Yih4>r$#f&H19hz@+5W}Vt&
zF|^Kc3^+8HjzL6kr|ltnCg6}Cp&b`+dphhTzd85#z64G%rXy)}BePiJb!>BXlT*|C
zI)6<}=lM3h=%CDb4&cyWItNQMCL%5_XSg1_@_M(0lQua6EgvT6__8nhekCYnZi1os
z{;y3bOB&6H4m=LO&)iN)G$jU`_!dp<&gC&CB06w?sTv&L9+<^+&2Bp@tNHPTa~7D6
z8+Z8yj@c>S=d$ZHlJQK1yqJ#eR!%SV^35*>1&IUBY2?(-bhMn|y3BlINbiOtg+)0y
z7+zkW{30Sc@cdjbIJf%VL(%onaGDz>%Kp0xq64=lgX{g#Z4P#Rf6AVWq<j&3C57m~
z&xulwJ}F*vs}GSDRB+aaeZnAu=)iTASX(?@VM#gBoc4%CnLgW?nueA$JPv6$`h09{
zlRxmWwq1GK{Oa{`L<gSd|5`MCn-$%`6Q8)e!K5^pCJxbo&+ihex{Aq1K9d;oRO;D!
z#Rq~B9r!s>A-n0#!tiIh;el*oM=O`ST@W3(-{nswhQ?mge-bYiA+ELK_hBhSXEQW!
zJgL8Ow=l%ZApL|<SG;YB0ICD`my{%RYxv;NAhp1(Tmu#Ma_U30euwK)8dvT)xyZtF
z<OhNFk9JoF3DZ%X>80lQ1oro-pZ`2_?DIKKOox^vnBHo$S$_L@j>h>BQn5UyWB&3(
zg>=N(y$-VHt>bMUNK+r+<x|b-w(j7ryJN7uq|wUOLz0B(z{iDDkw$3y&2K|Bw~IJQ
zuZ{^tAUbe=Ihv%tUx{ORaw)NS`@&Hsb3IIl>qqVsedcnYSv=`%e4hMkMnngme`s4%
z#3QqQTm(*MDq7C4Bj)=2kyjOmJaBR_9m4r%W2#N8Ou+HObV{VwCjzG3J_AP&(@B#b
zHR-;x;0GLDOsD9+zsc}1mM-9o-N(zh-S@#BCQU;kaLO^AZ2zd3CU4IP;6z|LgQo@_
z7CLWx3mgkfXK2Uc&EyTT-N2E;bdIJTES_%GN(9bQ3SQ3dPwyF2kW~7YGX>Mh-Pxku
z-E#jPXb%z7VSam*=TpLpGH_fl9rKB2k-mHEOM#<`>9oW%QzxZPH3Ekb(^+VD@SQ%q
zL<gKsB3^%K-YIOklGVBuI60UO<CcAt7te1|f#Zki9F6vMYW=2J0USL{$I;<i>&Qp-
zbl~t}I;>lF{TT?*cLB~=GG5N1Yt}q&7ZiPfQ;zAFUoz%WAVy6ACj!%{70vegHm6t*
z91BcmI_uA;Qh9rB;7DOQ+#H%0+Z70WXAfvbH2m<$UP?mC8NNQeRJ1`@X5&?v`FqPh
z8;ji>$%qboUcT$|YM1`th@%y+&f>y=_LVq92fl6z-a>gH$xJE+jxnaATRpf_>3CZx
zcW<`LPjdQB0-^)g#b;#QO1dN=;G>@Vh0I=iq%RRIXSl8dYagP2TW#*Tprmqn)OK)l
z2BISh-503EFg!V|H*4}_)<$bZtg+Azu`akha<(t}6B+iLeGp`IHI_sc6G3#~@l)fs
z#a+WtaZ7lPTvS-{wI^eUb-|8n@lc+-@^ecWOKyh#)yuz0hz?v=TRwfsUwuw@@chCP
z)7i0hrgA8CVH<GdF&&x${wY=y1y1mMnVNt%e&GFeBuwYxLD!J1v)nwOJ)W43*!Za2
zqZ$uM;K*Y-XMzikIm}W5fkTbQ%ZH70>MEn@mrmf2Fr9?>yQP{bQU##jJu#hvn})g^
zt)uDSdAB^K)6XCrJ6|wu2psA?ynNvIFpw}Ecz>oRrgJ)c!>N9Oz8;XXJf;KhAEVyI
z%O@eAtcb62Ebrg=!F1jpFEWdCxHF(szrS&xga1iSL<gP^xo=mHx#aF-g7&B)I`DiL
z-?Mkg<B_)t$ayIaFQ1ydT<v4SQk(Wj<(=L;R2W*0=)iTs`{IHT9k{Mgdtd*@yNgu7
z{tZn;2X2pH;L4<u^|z$rP0Snf4mQp+B06w;tcsO+EO$TL3LHu-Ue2K!!OD+k`+tDr
zJp$7SQ893OZ!P8n#*ZGRb9c>*(N{gn2{??Hj?1VOZE3`c7;q>tc=<3qq9ZtNz0?ZE
za|EUX@AK5dbS4^{DmND<9|G-R#B}PXHmO%g6Uu=@iN?!EB<-p!P3v0`;6z|LZ@2Zf
zMSMDz4;(#AXOp!Nfxe3G-+mHCOvko<k;8D4Lk(yT<qlpxSA)I72Gq7H04D;|d7AS1
z_~si7QNYo|bX4|UHsKzz3I`4&rqgC%Xmof(d@XP&QF!^xehD}j7j<v}I1!i*yzgBP
z)5#Be{H%a&)&R7J5!3PB$;75<BeNMelt{dM;Qe(Gn9ecA;Xj;D<qv@N=wUkWzBooq
z2Yw$l<u+bEIbYlSQl8s{g1RCw9ompr=lZSGcK}BZ(}DN1F=9GJ(y77vp0e?vJ(LK%
zd}x>l8d~-{{NH>qosmD`%$;QWSD-z5m=3%@lM&NdY>$f#C!}-zJHOw;%jZw|VtV;w
z(SP%51g2xmLOPycWgZIJqlf7@O{)(Exo!Tx^E0Mn=IF9%?1sH}T4zQ<)!#FvlyJ0s
z;Pt5g`W`f*17ELh3$DCcE>HVsw@-ZJ$+-`@7MM=XuMz_T-7Wv#^UsUvjC7JSpN#Q%
zfPI6VH_`He>$+Xg`c>?NBR#nPA|g8QeL-?Yq*+i^VF1_<X@}^*?J*x+8cDM4as}-X
zL3H5u45TtxHcLx}gZ7Mt;pHP`Th~_O;@|?>lY{8M?RjIK{beoO#0Rv;6VZY5fxmkz
zkLl2;>`QU)a;1Q}s5j8^f$QR^ds}p@@v=ZNixJz8^mk{=5gqtAg@30Rf#|^b!0R@8
zn9k|t9?yJ(hw1+39m@DD5-k}K9XOxX*FN?+w+n;7zRKoMyqx1ZMw)7-9u$Fnl|)RZ
zBCAltnIZ6&--Nq~j{R)69j3!;wfJb;UE=q1b2r$f$B2zmn9jH}i`+nv>%aY()DX0M
z;C@duTL}%`xwRkct0ZAMtCZL3TA??qfa8hjl=a3kvu!v)4;*<+$H{SkdNR^mA2`%t
zynKvht=wEnERD18%7h5c4gDrzI!+&+ZEp?Pf995l;f-5#TPr*f9eAJT<l#g2azuGv
zNc$C>7{4bU6O8BxLeF>fOWUJAU28rp&fc@(AmK$aFJjIF$f>6%2dfV=Xzrw4lOd!D
zmKY;C@cud*fewMXfN>8kjYs)%e`<y`5gm9u?~GjP=-#ZB@YFMw*DT}yLmEt{u3=Z@
zlvL|Wdf_wcd*tWm$cQ<^?Wwc&plchiR-S7d5mNgx>x$Z6aKC>am(<9sbJyT+c->X~
zXy{NJVte3yo{jg5t(*;}uW>LD!v(AMJ%~Vb;JVf?h|ot~;jh~p=sw}@qhX_m=x{*e
zr(NJ$l>XdymAkH5D@3We&qPEAK3{a}^gQs}_T+t+w#U`yLY%wo5FPmU1w6AGsn6UB
zgxW28zY(T=`85$8xWC4>wOw1B&oFH-{i^Yx(2-z_=&(WgglGk2eQjy61K0DY;|I=1
z?HBv9vyYX3@Y}Nr`GgIZQ2PsZp1)EX|2qGi{P)f>SN%~%E&^g*uoFl9exlErYq~Y|
z>5(Gk?xoJ_X!A3?e>G{JWLRIdc&&P;c<3|k3QtrAZqIUNYl^kJT9wz`$TP3siRfk^
zwg>(_h?;`z*Vgk#U!7Wev--Wjd%7Iaf!nhX5uD-E(jiy2N&V%d)pyfiL<c@j2R@X%
zVW}8Xu~T-k*U&0n(8P2aBQEN2>UJ<R`3zXHH`i3rU^*2qJ)Kvc9=!GCYpboAO@kl#
z8d|@@`&U1hoE9yv5F4z!e4#9%t4EWF=)l*{ZTst7jQO4ojg>q1(=sL1xga_M&~bWB
z{fJqJRX^jHg!i>u6z94nL<jD#7>(GwhvsiqeC6GLu_5Z(r*ce(_--spKcLi0vvvNt
z*NTj`AErb8@tD7!@=HeX+^~9|Lt2e0rsKTwB$e6LhrMQ7n^|>I=F6oZw0?*4*?sj*
zFROKKVx9KZe2(L<n#wVq<kK&icT}A&7FIYZS9$d8K0i!{VM(8Z?u|I>UZW@c0yPCk
zRWY6M8*hSVV?VZLMUPI>mC`9J1>)tCMisxS>nAG$o>!J5I`I4hKlcpAbmniF9^<5c
za2nh%>tQ<Zz7ztY1CJm0eMHRxcsaxS6XGzPLgA+}ZlB8ix~wJNnlJpgV2tR%{gu~F
zXY^&n=}^V_{w>4@mwb2;9XKDZ7c^7*U+`(kOvWF-n>cu@(;qJ%_<bNmOb1>!w!m~g
z<ixqL*T~%g>$JR>4*VRX^D16Gx7=lEOPADQL3@ap&d?90?Fq-S41i;S>6{Mc32xKu
z$^Z^8rUO5R?exRT$F{DciPOaW26*m3#B_4H(qt-&UH<~d0@Jy3!^KE?*Z5no4#|t@
z^qTWryL_u{3ACs43SK_&b2K8RlW)&>>*~qTPS73;OsBo>&-l*y?<wmy#Rf(5J>q#W
z9m~UC_~KIsbisMB^D<sO1ugEP?&~7=z<4HNI`DHe3ruI?d3CF%a^MN@-Z@@OM{RL*
zwX~@s2RNO+c==46E}#EU_<#udorvii+R)rxbb`YNw8sL|S$3*jtQ8iH1MT6(bm097
zoj!Q^lu6j+<?lS?8?QQ(!CXfWAYwWPrcWpDy&O{TDPxwAPI7*q1*Q{r=x~*v)1#eN
zy^>rLYcsa+VmhTEDZ}Apt9@V|>%4@QkBAnRzxBtF$G{<CI`H>%Eij!!%W6`?8R1p0
zsge^dI~`x~B0BJU<Np?|nzz23f9U3{N9_}R!X|>~z}Hdm^OQbsyqy2*dt`_Xe0><%
zTKBbDhUJWaSi)*4Ur(0{q66pCzRmSoQj_O)p0)_*IAX+#C!z!Y4*I#{-U}Q5Og61l
ztm+KEYo)V5bl~-$Ew_}uB(pp#(AOHP8;f4;!F6g}W{UTukgAgV7&%$eWPhSM@cQAc
zbsN{=`iVDM?eyu)?;UrkBG$zZttZIsqvy5S*wHw%YAbKCs-Hkcbl~-k`cr{L2D}>@
z^NMU*=xS#-$00g!zk4K(+|TkY`*NQCkU(KWMJy4~f!iY}(|1Gq`G=QaK13adJE44@
ze7vL5?>cnZeVfYiW*NczE{MnJR>+yU=^MF+EBsSg?D0}XvAv!oM28D<%vZJY9U7iY
zfccq#I6uSdTD@!GR27+xB$q%AMgGZ_*fGTR!0X2MbN*;a7AVC;brkg^i#!rXJzv26
zwMq`vkbQgLY9bA7XCs3F4{Ceh`6r4hb}*GFxXh4Q@VE1l{87}L;p07+=Hk?cHIZ`1
zP(?2Pb9A|=ju6ye^}#V-2a6OW+I5!#KmB^IWsKNgERgegOgsLqY|n#-Vr)fQWB-<V
zB06wg`if_iJ-3*?V72V}VtDi!FRB9{r&?`0t0Dpi$Pd#3N(c9fu=ydj2Yz4E+Ph!1
z3)H;1uV%IfUT)4Z&p>qG@iU<2c8$BP@uD8ZcFl8TMF6!f_<XT+|I5K^*#S2@tmaN=
z(!73(dL4BT>aVh7Zw7^LgM9`^bUNJ*WrfmUUWc0nk33Mxk}Cx7lObbXuX4w$X2vM`
zr;h&c8JeJW`v+q>yBZdDzvfeul+*~c*G)Q*t%>QV7ERPx+D7!aYUHWC_6|y*L3H5b
zy_6(0Klo98ZvUqNhdISz84BX~fv=<B_u)riI`I4O^$;DnF8F=;1Vjg}3w|GdGvYiC
zJMg+_9Hs-WXBuNVos{_6`pOUN;J%xH>D;}*bVx5kv=unbh}Ro%KJYpK>h%xo%)C5Z
zUPCw+1b#PajM<*gYdL!vCJxsFhk)rMpEw_v?kexWC9V4MP4#=8W-q+^i;ib6mN(Ul
zrvWDp(^>c^t6_cOsk_M-VT$iV+7V++=i|9+r-@Y`KY@NHU^?*cVVgbi^3k^cGv(eq
zB>~nY;xHX}pPn(M13$kYU^?1s;oeSMnFS!{=8JgwME9R*_;@{k2sm+=&c<733yUPv
z|NS1s7}J5@*G<55;NP`1d*J2c8rgVlE>6_tUp|;l-lGARkA#oy;P-mQm`?8IDreeF
z0~Y`0A4~`S{YA4oUOw=1qBu+ke($$2rc;t0aYNh8x8YOurp2BJ?Ir@IbJh34+K(N5
z8rBzcv;|cQa+)vT<x}JNs&ea2P5Ue7xDPo#X;+WKbOzje_s8wrQqWxgY*6Zs!E0ko
z2YyaXz;xh!@6B#_`Pg>ESH2H_B(G8RF3L9IePA4-17FwaQ0~onEi-;oUgDo+sSwGw
zKy={y9e7{26sDsbd|=XNCL++}rOlV*t80o&=kfBHbPM&4Cr^B*F|M`?n^E6cj_Fvh
ztPrCGes&KY+NBd1TP*E|=)mh6bCwyG9F^`~4*9`SSvJ6?VvOj(`|IX+u##WjBKGvZ
zqlT-mspQ)sI&gm-k{aJTZJ$yfCZ1~iXu6*&kLkesx@iy{cpP5jexJ$xfVmUwTc)_;
z^}7Vk{vRLj>SY5b0@Ja+xUIpbOyS@Ad-X7#>xoAf?|Ig$G=KVG#mrb;#fa%B6kVH{
zpSd00VDszeC8xIC6c@aFUJ@Njf5wYv+;w2$w-Yptia>PW{(|=j8zVaK{e?44*|u0y
zEjIH&p|#~C77YTT1GlH~&CR(m4+X7_%lC9*+c)cVI^*TT|3hWfy#63*NR?RSFYFvn
zM0DVN-EW^p7T25jZ#kBdInZ{)XfguPf%BPJ_vCSX5|DrUYjz4_M5w7ArgN>1^JmZ;
z(ei#ar<UsK%a@FZ4!q9KF)Weve%f+hfGT(3Asrrrv2%Di%dJdSY(0OT?Pvc^ngKKM
z8#$PcvTw1+Tv1JLs=~qGzgs9QE{G01eqMAHcevYA4^OVdtvVgd;E_jk;Ql%yp~Puk
z=|W6s*gjmzS^AWE7B8QoR3`zSP14+~qeTioMY1lF5FNNKi%kcn%!Ohr_KC4duP1zx
z^h0#ux}*ZWe2HZ<Ib&>NU2rHZ?7k|dV>A39-)87o7Ta<_arl^<)sholKB;Z*x{5rc
zjEHnTZ>}A^m{5-Bz`qNi=*|nBva>t7ef#SxTuSF+NQe%cPl}dd<+cIOfD2XBC#-R8
zGM<=@mA7wx9{1lm&UqJ=l{z0ic}!;@gx#@~%_HIR*?U7GX5X$;9r1EDw}0A@EXsE^
zOYzkf@gX@Y5~gEOJ^gEQ;nBe0G#83*ynuiwrt`C=dvCNrfP0Bpx&-6hi+S>xj_B9y
zQMIezo|ayZ${24`9H2U&<pUpIZquhd&v=IXVKDqGY+QfcvK-S9*>>#@b$FW<pPj}T
zHwX5>U_=KVhXvX<y?!T}Ozd&0D{}1Z2-U=NSaolvd2n?Xh&%`nCucicp+R)u>&!eo
zx_HG^+UQyyp@o@)Ti!O?qvZ@cx>gczZNBi+HJ;H9)zxxs%0P7Be5M6?<UVe;SFLc)
zxkq~NLE8?~f!8-gFdcXuyUz|SAGj`fog@R(f%h%jAv*AJ0e_EG3ekb<g1@^oW{Z{&
z+#dKlP$WzT-aqDt=)iTs>!PZd4!kb9bOtRSxIHhzlr7^z&+38wY~`3vaC69f!Ka!v
z;P_!W@H(3+rUSo6XvqdIpHS}ItQ+i&r@%U7Ii>^uPQee+fyeWt=`bUW*P~tF_YRtv
zPLZQ3f26374R9DSopj&rhU9hmf8SAUw#LgD{_a~Grjs!#_o+mBixzl(VT|d(`!flc
zj+G+)VGD837SNt%E4+M4S{|8oTRUfg{)$6%;PJx~aKPF)fS(gM7MPBC{rjAPzl1xW
zE)hfro_~A_jvrs-R_6jv-)X#j%7ud0ozjIY&J@T<2(}QNG7ueje~T8U+2WLU5eIO{
zm<~0bFVbX=v@$R*E>%`(#gALp9#I8e`>BuTKYyAvJl{^wfLqt<aE97p#vh@Y7s$%p
zzu0L|>w?FRt!sjb<D~=@)#$jDOGSKJA`tU|`@KhdFk`z-tlAmHg-JU{@fUiC4!rM+
zrbS%GdZzF4PT^ffxlb-p{16>cXrBzvoYcxO_NnR0kL(SUD+&s#h~pW)UeyWx-1=*-
zhQ`ozINxEy<Rv4b1CPT#Dn&Cg=kI9F`WI#{j<my4hz`83X&><&i;!~^Js5|^hz|UF
zPpwyCkItuix!*5}&565SP|%0y!26n_=UzL>oa5emGhdUd!fwi$g6P2O>H}}L>rVI1
zIyoLVMmipNZ#e_efq##G&HshZ;hkz+TOKBF&E~CAq#`=-aZw`f>i*zDMIL>FX~Neh
z#Utg24!l2eVCaYiiKRPG@yO}2>op!!8qD)fTZ~YhdI;P58yEZcSr(?~lM&kk_m|a@
zhC@$SpY}f4i?1ETboS&RI`Hv+$zk&9<(;mNw)qx298VCfbis7^mTY3O=4<k#N(wtq
zADm=EJucw(#EDX@xNkn*LMi;(E!w^8F@`vAz|Pw>-hJXZVmH=mU7yO=u`%XgI!tVG
z*Hre13EoR|d@Rv!*Xe@jz~gY!!-^|x*|8U7uhiT)&JfookLbX4eOZ|L+IU?js!I9n
z#5a>>JE|qxc^PicllB0*TmtFL#@|IjhgJ5Zmm@lGdwSXa%sO+*#VJU?&%KqLJK%@u
zFlb2Zis5&SU^cS;F?oo|Ocl|A>zY=aJn>n(QC*2T{xDnJErtfsf$L&(8%=Q}DT|$u
z;P2-UcJ?D%pydoZO`o!ok0#NZ&C&2>&9d$a3dVFiYO1Yhr#}3OuN^9P+I{1`CZ@CQ
z-QO!7`7BwiDorUxx}8je=~#CUIeDeh5Hh#4^s$(6^OH~E<<oa1o;RIP|ENo|GR8OS
zxOXt31NS?p(EjDE^<}xh(Zh7$eVznF2kv)xpJ($)w0z*Y;C-G%L<epUywB4D(>c1d
zyEMPjx*p`ri|D|0P1c{k-@^82dM=u4R(wO!`#y8DeBiqDE;e*?uk$?4mijohwZ@x0
z1Jk*(r7(R%#zR`t6UK@P0>eu?Oh<~?s3>3jC11x>sr6`cpqdDx1Lwmx9`iUbQFpOV
z_1i0LTZ0Q@W_bDVW*?0a8X+79_i;Ix4*VW_7fc6UUzNgi!hhde`#M~5BBkX^0^RJ6
zi7`{OeBhjO6zdJ6_$6q8L&9`2PT&4va`{9faQrYG!<5`hb0?Jvz|q8X%zaL1y$lsD
z2M!~q^Y*9o^CKT8J_D!O1TW`n{7-D69HU<XhluHz83cHU+BfL|#}3oE*h}M)dHicI
zaHKFD_Qzkhd=h>47dX@tc=>F85c4eJuY4qM$}yc89n~P7r+3<b6O8GwT1-jMo@JQ_
zjvl5Hs+t_u5}wNd90I08D7d<3>taeNa5|0gaxUeTn4ZhrcON(zm=4KTa{KJ!=N-Ut
z!E~-wy@<QJ?41N0c}$0kTj^{=^7MP)EE(bD(_c8(@V#C32XM%kjv4jiDT-)f1aKlS
zotc+!?mv6OxF0yin9lXIjyD_=(__Hl#dJi2pBK~HJ^k07zT<c~XPK%0I{fg_hJl}Z
zau=e1e9J*};OifW<UEQ)m{$pKTreH;QS(jwG?N;@k-~H)yro;DcxZM3XY3eSK5$)e
zo__UJQCqbcj7CE9<F0GwU^?BerBx2}NACge2XMi3gxUJj)U`*W!26@55FPk>1Kw{;
zJ&Ko);k~e_jG5btq=w2KvxMOk5~2gQ=l|jCPQ#)4|HqG$><SShEl5#Pgc@6DBT^_C
zOPWyG31vjco+4Ws*~XHkC|ReZlq}h@W=JJVNn~j;A^yMrjknKro$sA<y}H+($Mt?a
z&obl8nK{_cJt;UH?DoR`&HxeUWc@qDUc!Iqk;`$O&9(31ZZZw<^}&8`op3U%lQlXy
z=6-DD;fNmtzXNfuM*(yF`Juf9x$A4QD%-}#_RUM;r|3AhJNEmq;f0oSab28gnx;3C
zC;PfMs&P8l`=ideM6z9KlPymA5j=nUqm>HY^<eK?-WGK*jMM*8mZ5b_kBFUHe*@0-
zVDCRXTU9qAF4P`)(pp64W#?X5yvHflNxl@aR9ZdvFeF<>{>ihVzzCe{!CrsPNX?vR
zwJJaVYr48T{_&Cv8K;BYpZ!g~=VZSQ<=1~&F7Dz_8<W84V6XFYKj}~Bmgp&oz1D0=
zm@?k3htt8%73)#gd)(<A`(`KV_HDVHoOsuRb?$i&$K*>puVbBCZKa)cr;&;CxWL{|
z`zumos%h^#KMSLWJLF_4{6}#**yEyf`uU7gV<tJtuVV0EkneH4=R@rEaANWMcSp7*
z6?OGW4qY0`+{3`R9;|c2QgQQqv)t9-zqbth>DT{M<8-k5&zG@^MdOpvV;>j(DVmYE
z$MK$junzWjzqNtu@rllCBlu*0(of7WKfL956bsPVskq<w<N?K_%ilN0d49&ubtC7&
zxzd#Re>Yz@MzDEFXa@qFSLFu<GQ<5Yq@Qh8KfYvrQyZs)eI1<P+|>Kbq#-v|SLnU6
zN$@Ne&?z@|;yxegZu2L>(`IDGVQ-s0zSl2opTs+L=d0~nd4uGWoTP2VpTz*3tn|oh
zxph0(bX$_se-3keH3B+YelkC5uG&^lPwu+Xte~zW0CdbdTxNbJ8C`nRyRePJ|6WAf
z5m+C>*y%bJ#>1mGh&SZ4G`KlqfDZQeDvf~7>O&J;N2IQ2kd5C*d)ig23jiJL^|3ZR
zSRd?tXfZ(Nf4+|obUwHl`HjfW{0)C%d+zL{NvZ(QF^)dDLQMbXUs;;*p&7gNd)svJ
z^}!zRQ#?1jV(c%{kH3_7XnQQsjEd929;g3vT^;B&3O<Oc64-PPJ#UnN)4|Slt46Ng
zThu`?@TST5Tj7;g1`gxvgPm)w|E+~F?!F`Fx-kvtymT{jIvG1cK@J({Xi)<jtm;z-
zkRt(fCL^RobOJT2kuz`z)@M=d&8Xt@CU*3FY8upG8`SgOQ^<ktV<ZC|?C<4D03E+m
zej){*H}hv}>~HO%6~7rc2<wA=P8JR5Y+7&g!*Jj}XHjXzsF{(#1~SmWeqUGu=$Nj4
zn%j1PZ#BA~cHjW4kE2RuwrX_mIC5w}$Jo$;>(i!3v&bO>o!Xpa4taBu5ppDej&4|Y
zZac@qA><6~hxLhwoU`Tf=NCr~4d|3?l&HGuPcT3Z8R%f|qm}?VLyn)`QWLp5(0T@R
zV10tm)ovtMjeSE74e0FO7Mrkpt6LLt$Uq1Cd$1Bf=k;#yu(Q{XoIvXt(1!Jic$Hdt
zu-8}#IW(X%#e7COq-_|A95T?!UcdT-ZN3o$ITAnz`}@5ETChIt1VLGY0of|F9vaZ`
zJu_{ovTxo4Ib@)-d!5A7rQu;d<VXOWBMY{IYmCR2zwa=x57r0!{R<k<sog#kS;{*$
ziRK~$9crg5NBV`rJIIj$IzKxfe*UM@d>A<cny@~@A>1E*xXiPVLjyW$8s%5-*3Z=-
zhYWOvU;SJ)S;|v{90{Pa>yY=yN~wEl$QjUp^=WhbaQbw?PXcmiK*vT*NJZLYn+0;n
zK*wd9`y0PxzdGbd0G->?B`=;g)-9jM2Gn7F_?8l%F=M4g(Rye=XV2r(OvMeuf0085
zI<$D9`wr&+&LKwv=$!I1jJy*zQ;eJeHCUg_iiT&STND0!{Q^2tnco8>0*#j6kCB1S
z%l_RI?#EY&Xf6q$6VZLu{L2~phsYUFh4m5b-L#wab9OFrXh6p+BV%{|{7hKT@Y!*K
zt@<b#=yZuHbNPf`c14Z^(0P~8Mo4B|JcyhDBCJoHv-gRab)PB7p#hyJsYae%7Grym
zLk2p!n?%!Y+-i0~js(z&VnpV(U-1}1&cI$+pXUpY&#_!E*@YY$&?$S%8TW2&>2BnZ
zflhVh>^R4<>(a=P06IdsO0w2H&9cZD*aPds-f3^Vq4+^4a%ey&`$SAzwufsma>zjE
zOz8ELIYo_N<VXOWgG5H_>rDAh<P505`qUKCZ-nF}+98JqbQ+8VOU^j|S&tkt(AgYK
z7#<H_^%OZ0Ku3>#Ld0+6+Vc5uKpEC2&aB}4($)K~(Rye=XKVFfx6<T;WaN;6&Y7nt
zz5Bblw2&hKbTlp>TvM&OZyRz3lwf_7FK&L~^~xsrO_^*aU1Lg|26V)iV!~U7HpC%^
z40QTCazAbn*wBR>383Q^80pS5zRixDf!(k^zu2X>r1uC~A%_NZ;$;*z+*(p=L=G9~
zd_44XCdNl}A95ssj`J~IuehB%Rgg2F2<)@Qt!cbnEeSa^pi`|u+8`uo{GrZ6_zk%^
zbTt|1Y%JR`r`-JbByuEx&MjZx&LI=IZsZIo!1}0(EoIFI`{*Et26Uz*-9_HnF<p>D
z20Dt=_|sn{uYN?11kkAv_{RR`PofQS26n;vM4bOrb1G~7Gvv^K&V%{Lt9<rsO~@ew
zowZ4v<<xl2bI6eZI+jM+At`?;cE}mn3F}kvt1e%Cw}dWoXh7%6-oKt#E6*e%hYWOX
z|B-#UP35-?awLFGJG<7Cqa(M>kTW0;>tiiCxYe9zd=fb{prd$?b%}Xq$MKO)D;06E
zm^Wmgv-Q`JkmEBXapXt<9ede*t_gSfgjHN#`8LnDZW!1B>m!pWK7NB;?_0zm-{M%q
z+P^fQQ^dC+u~F=E7e__~vAf>BkqmSmnEO@q{653}D6*k(mFTu}5<q8e%a-ai;ycbP
z<NZg9I5rjx$ie#D?_)o~JN$WR)Bal$e<@k2G@x^f<Uf5nbmYL?szMD@{x~%<&^f%R
zH(2_K`HokoRo~|P(t05QbgCTMbIR2QEFN-&t9iBm9UIt=uMhTq$RGd2zPOf92AR>K
z+dfrweX7RkU_Zyt7VPnj*1RgE;@bXr@Q44OK%kSkA|TU=*8KhLs}<yfXSScw#_3@1
zPl&4|&Z@eGXs_2;TYoPlr;7`xgT0S&sOg5yj#JM*&*qbyL+lDK4Q#{L8GFB<2>q1O
zwU=Wqnmx~}_+v&X4LBX__HvMM+np1Ty~a1tr&nw5;ORV^4t9I(y>{KVY3|egD}Fs5
z)O%VX_CUwhnCsAi`LA6GC;XpY<<|Hh3v~X*D=CZmyQh2krSWU($9Ig%;_Hl^>(VE^
zJ$Y+oR_J_aJjAd2h&K=DDDOHa5Oy#|4gH?5J<!QH6>v_l#WM>zvOve~x5DDL8kGd(
zjLN|J)b7lwxpBMJ203{^2mAZ#_CTlX)L)0+7ZXz-M`<OUXm;E#3v~84?D&vNFgq*x
z_oL9|59{Yfx8m!AJ#To1tiLR?Bp$80A(|uDWzCHuoDOzBl$6dmA>Q_iDYe^^>%=Af
zf9^o%?a^0bR_Ffj-sQ<X`5T0jrW9~G*ttRs&qkQdjjr{%rn&8KlHn+G3%)+sxh^*S
zV2u^<YLO)S`1Go8r_+HBH_tljT%Dtg<F>Zy@i}kgDL_Z{$cCT38YTDkW!f9bU9h-B
z#OYxB@LgIfpc-`5d)vI*Fjs}DAq!3i+b62*bbs*I=jzj>t-GsQzIIki!#aoR2X<VH
zp5wWd`gZAGdgrP@pff*S^m4dp>|u$J$c0(A9sb%l9c&*bg{i5hB3>c9&YTME^nJ&<
za5~sNmVd|jU7Sz-4fM=U;g)HXY}gFz^NWM`(vj?y0UN%5)!j98c~1n;sbO1ms5>6a
zI<e)8?S_r!XY_D7*gl3_nZm!P#nx?2HQK>{h*~6o)4}#RacR+Wl`%)KZi1_qh}0Xt
zHYr#ic{`OetM~coro>4v?myKu7lYHm&h_DNbnDODscBuWn$<x&_BoMoI@r0MZ=Z4r
zdnfnlQ%+V8Z&|D&0qDdAtx?g|l={+kS@TkvdLj!$64vLM!Tq&&l8erKl~%22zj-2-
ziqpaNdHL!3zUpyX!{p1A$I68`#K<@uY@dy!0>Uqezjh1x=?xpDs;^1_9rEjq*8R^o
zrHFLl;gvaay9Xp-eQu0B@BI{h$87`ar_R1RqU&fl9c-WT1F=Ds0>1_*YvN;6spenp
zaXQ#Od|hv>a`zmy_I%YE+33z8D+_eid%o|D)8<b<{Pg5OI-^WxbQ7$PiEnMz*7qg9
zS(m;%$a`3EIS=SuGw5}U+Mex5(n&2C8Thx>9;but{6%_@W#>-uv8u<%w=HC}D=Of0
zu${5b9hlk(>*KSEGeAu#Lu2;n`<n_^@;ZxvPNWR$9vZo|&f!|Mu%2Flx;st>+oyhF
zEA?CR?|O@SE8B&_Zb}nzI@ms&;~&oxrEfeJUU7yxNq?=!+yLwILws(Bq}!y1xYwLJ
zM@z>z9jAkxON>p`a+hOFY5$<Rew|iJK_E^CJ6ENWXGn`l!-Tl&B&SVZ%{OhF4t6~y
z)l1C$xUXD7w!SN#%P4el;dHR;3H)9t8gMjej_e)bk!SvftzkW^bE#JGgr;n8t?Xm>
zg4)jq&qd&Lu)ph=vhl#7ZEOjK7Ung(w(JbKL&E7`=i1(#NC=n@)3kAVq}<NNvxxw7
zD*KM@^Zt{nr2C|*b3EyjAwwM2r}6r0>#)P~$?RWO-f;>lpipr-*zJDLH1JmBxO7|e
zx1rj2PpM)uP6yj3yJ4S!+`Tg_p<@HA^{k~H5<sUVB4=O2uV-Df`5ei9fz>?&>+to#
z&Ly$tO~_H|fpB;8giw-2LQx)02RqkPxNLzzPqj|S!)n{tPwHs)K*xhqq?JSH9O<~@
zFJ(&0yO**+$8|hDD#pILt*0j>LHNgu&`~j1AK%pSQ+pq#2l8M36Tg~yldlM;gYC2Q
zZu9KTk<jyM#@=hwn_36lfzErLF}H0WIR8Gm#8q4D5HG6$bfV01HdiIt-q_9JcPDpL
zWy=%+UmxsT246%)KWdhXO43sTKJe|`Py}=~IcM!`dPgb_A8b^ae&p!rj?=;J&&`S(
zOp=qOw`lEAAInO4<V(cqVCTyFzh6}2s@5U4^xQum<1w$q6ovKaoF9BMEB=RcTrX9w
zkLyPW9jAkx%dyTzEvr+35`5%VlE6#rqClJub}o5^JZn3C)fF!z`l#7q4+XS=&Nqdd
z!Qy{zMXvoes}u4d&x{49gPqIGD>a$yX>$K0)7;o>bfKX^1lHNcCSWjJ^`B!v!H74@
zI@`|?K*wQ7cfPV-wsXzYSBHAjBzHZa^YK&iUPl8?j!N^*ob6qsPq=V8*giLyzgs=F
z3oT{qskXfvb5Lnp3+t0maqk+>#y`C~c^~$1xpdNFfKIGU@peNuikX3p$-<R3T9y$`
z2Rm1VSg{i8)7UAV>c}kBs(*(GI34W%T<|0OxM3w>T}bQ0=@U}pz6@b}eX#3MdbSj4
zGcL;UuH-oHpRGNSG@K50Jq!BJ-W+?J7n$_I+%E5v+7~j=`KLo9OYPc{^3hsgMU>!%
z>k>E}>|DyvYNF)UYA8Ee>hBTou(KN#!q*2o*8tIW@a=haT|Z{p)^oMt&Urv5-)aj}
zlxJhDb!eHES-vBWJ<u`U$$ehxq=s7jqgp5V71dW{aXQ#Op(lma3q9^1b_uy+SMPGJ
zYibRwk5>QeYya}ZitT1%_T7?c>P0~3gpswE55c4<Xz10OxiZyEcbpD(uG<@{YIQVo
z>i3P?QV;Cb$|B-)u-pB>XPuR48AqgE``x)Wo!Rh>DG2LxNvl6!yI0=m^3#i@x3cv*
z=|Jc96K4JMBzOH4eiJS(@>zluoDQ}RRVg=4@#lGYMc+`*Hw#-PwQ)MwK2xXPpXM?m
zzAbgTYvV0WJIexeRwvlF@!X=U$f{ejgXg38V6_0O^K|FK);B8_c2?X8XA?ay^)V2q
zgYDCwRb5!3XIHrKQP%~l_14eza5~sN?*=(Kf~B^JN6(%=@wk6zlndx!pFh~Z59?D@
z+vLMmVbUH}?X~g-*M9j3pmWF7LTJm=uKWVSZH}cDf_i#59c<@ak@1~F-(2_4pPoME
z+g0>Z0H=fP?CVzQwX)mnDSao$gG#5!#J1J2K0V)COZ~`ii#RSZMHYPO17d(q<ldVN
zXUKNx(Fy9d%HoyoMmQa8pNYZW+a9Dj{FphT&9$zN>m~uGgY9$Iu+-+EH@DoiTR-Ji
z6ja(WR>Au4s%J0+KYjfjqww?~Z9Yqt3UvOM6rB#-YkNd4i<H1w?BYWLI;ro@76*Br
z?mI7?Q%;E-KSRLjU^@%@uj2DOPQIg_sd0IsiY_t02kUc%R<!uDpv&}*_hZu?mp8Z4
zfKGQmN88SXl)2AYkzu{@&BA1$bCT~@c8+WNL)F5|LmBk9<q|j@Y@hX(avr~fJ?(q0
z6%AZS;AkG@h4t}2R~vnl_^sSFY<pLXhT!i!prdld@2PEyqvG1h-W{L+XcFv!PUYIA
z&$@+IO+ts(>TQ=Dl$HfLkz4Yef>(}&l}onWSCo;vI?4m<(=G3?W4CeCU)vPZ$GJU@
zC-QJQ*zKivh}0`wdHrxq;gNsQPA8q*aXQ%Z#y3UJim5)niC2dtIk)>}e^LNCryd!9
z)s<^}b!S6ZiR4igpDAuwAF0b>+;OIZG5b3uuB<zr5MBgy#**h}s%~w`s(k+R_>-0P
z(e6M;{|Zg1MMS}O-MX6vCXOFQ6mUA&?RAiAC~!W2)Vm;LGJY%8G@Ho<>+_!V_8DjS
z5~5?vX%1)6nwNB-<MKmRxW6{-*EjoL`{d5|9-{!A&JEKl(Z_0Z$`@Zos$ceCC*pLl
zeNtoYWGPQ2e4g%T?@Il2FM$Q8^FRCZ$kXITk=a-L<_9WHzHh6q=7e>YUGd|<{#1d?
zI(DzaSzk3|1A$Jnbkg?tycb26kExu9-FMMO8|Wld9A_*YsThkq!=I>dOQVJbr-SWW
z)JVCX(RgaZ!hYXvW}ho|HgLfD<nEX)wk^mNN*x#bGQoDBDFW!U57*5dN*ZxZ^GR8M
zrnlEZ52u5j>y`PpHT9&~TurrGzxL$iO$gw0u=`J8S69XQj*KkHcdteSLU`5N*kOJA
z`c__by-<GJ_Q^N>Bd_ucV}Oq9WApv8TCQ_Tl}Ep54USJ6;dHQl=B%RL4hh)kUEsAC
zSJEF7Cg60ieFWE}RLwY4JsC3eK6o~#<_}{ftj`3$)lu0;J)4rJ9J!|N+xAg`&Ii)S
z7bW2{FA_vp-?t_xt|S4SFsFZnoblq!OqtJ5r$60~B;a(goj>2cZL<1w&s~u$nR{ZU
z){_Hlus)Fu;ja_Ft`vz$NOP5G8#zV;I{)|Rr-MF({)q0F2QL#Yv9yqZ&Nh`cUHe9t
z7n+3@eUF|xG9++1*gp5Kc^wz)dU|4NYdu@CK*QkZ3RoXcAHCk@08*t{BrVN~S}T(W
zbk<a7JswH>_*T;7aOhXsc4>Q@4tB0XZ;aUfBxnV8>rYqE6dJS@a5~uI%kJ=eV2R?8
z5{)ua8Ql78c8V3&XG&8d&`)boLR9^NbiKlj{Y5w(>|Bmp4&8Nbv<caoaei9jQ2Htg
zP6s>Js!ro4GSlDARlJjKx>?niMFcuUpX1(bosPNFFdS^)u5e)wlLgkN-Rxy?+p*!8
z3ya6Du-#8{rQ>w4eWX22tur<CCax=d>AUDdO$fy4VEdG$t!=nc*8Z2R^xR{w)o)g6
z10Atq=}osr1B^S*oitYxBG0n`ooj+InofH+NvskK7gsh^7p-3UxAg!2VSe`ffBuW@
zL$_PtpJ{x3U~7$<tj_CMp$MD~wol^Ih<u|CuDJ2*Pa0e~`AB*|r{H>)!j3;qlfhRz
z{@krpwcr9eM;aW{-NoytCfcrT2%!8JZdk<E2Rm2pN8$9z-on#f3OzQ89gdG9fDVVN
ze*pJbcaTHi!n?n2-}mYPojY+^4@L%k>HEtxy&s5bW^mzju-koyK(pelycU&DZUF{y
zGR_rk|6qN5cD)rnVc;X1P_7qmdgkcE7@%|Fr?e2~Ly?7s`O!z-_ooGoa5~tz9?h42
zEKlLR<y5S%ZEKycN5JV|w|mf{=qR(Vz`DTdtbgRjr>7VTus%AP^Fkhh!yQsbqs3VH
zj*_WB$ALSf@cT<6)s#?&${mw|og|zNwvP)}k<=V3O=3eF?@5NQ53dAH2is@Qj~Bg9
zujoJh^dyFSP_tymz&yS_*!4twPXA2dNI9^wNq@&&OR{qwP6xZ5u>N~p7r&M0`kmpp
z<NKv=lReNm!s7XSEZp=<*V)xdHEZ~3vOwq96M56$Yv1mDp`7r|Dd$x4=p3xi-YPX7
zJ@4j>j8?<O$F{pwif}sEK27KU9C2r<`%?LuC{?okT8cZ+vE-e15SonIQP;n8R4Pow
zKmn(N-R`femWW3m^*B$q4f0=i5z%M<#n%Trmu97>UiGkC@xa|+_3Iw;r|3Y3WkII(
zW8bxo12-;A93@Skr{Hw3b7l0(?^Me*l>EC<cay)cd4x7j2RoM?=RL{ZjF0aXl?;Ys
zue`g*0(AVn1I~o4j#z*8+WZ=xeXlvInfN+m=Q^gp&90qqTbK4*o<xbAqw^6s9qe46
z3}q$OMwJXDim|<V-1K6*9?)47Id$>Vr07b1j@xlDx?dW(a5~tzR<4XuP_}vR6_gOF
ze1uJbr)?HrAM9LP1wWYt-pt8(_1vj%;P`2;7@$)VQ)$?#HD48dBW&V?&ng`woDOy_
zO%-d+BZ|+<Kfl-I_cIDTO~C2=&s-Lnh9|WvHH^+S%czO@3o-t{`po;AM3K)wwGir(
zPZu4LD4^nWuydWaa&Sv(c)QM8wb6(1>HBRmP6s=eUb2{&H`%bi$^WCv;)UHg5<q7(
zimz+D=kJ3sDYL7k?K+|Zzw!0K&ZX67_q|=w&+p=%PnBO|zH{f{bg*+pYu$>~`5pSC
zlc4U_c*DQh9_Yk>KU(V?XzBQ<!_1p%*XSn;bdE*Y*Sr;Gw~v)ETb*K=R6F_$)@S|v
z%g6eU1O-1G_l)BjWF0EP>0tZp{&dhUcV!N3qp*A5Es+Hicc4Q{^fD6CeQ=@cmCBY&
z+N^vEI34VESFw$m9QnGU_Zzk3(iA;Aiun^?AM9K%mG3u+39{1q-bP<-P~RFt2ReiU
z369}1e}4J;u4`EOV7;D#)4|RaR=WSsGwXl5?36cGoB#17Y2$SMXRhss<&JV^tdNs=
z8T3B#Km`lXaohcb^HKMW3)00rvc>8xC#q*)o$H;+Q526@kH<U9IOB|ky#j$wd4_PB
z&E>=5G{uPEXCu7L+Cb;q_Z97rYCT4*&ZH_HY;9;_!RcVPmsQ~sw`IZVDnb6EY%ijV
zG#aL1eU7mb2AA%y>vIV$+<Ergleh?=(@0(8QuKgqExjaH85?{rQ4gnsovS9qNOslp
zN+Z_n%<WZtS6>O>bg=v3eD=x~KaWz+dw-ccMq<y#+NNNAtfhx!bWRW@?aks^`NZl}
zVt|fFjp@niw_!PvcT&er<ww>T;dHQl7GtZP?zUfd=SI5ciRq&{YY8|VY@eXlQ?2bs
z_0uc2h7c)Iwa$!5SRch+Zp~79=PK{|`x{CWrDCW!9qe4Qa<1NNPkq%`9jlciwybX;
z<8-idy&`najJN~_7A7@Msb_`{NB|wmP>|$DIl;TmeIB$OA#bAwe&Fkaor`C3u+d^=
z3W+6rTZW~|BrOl8gPrTXpHXf4#n0odbJHFxy1oe71Dzf6Ym-@bSp8$PQmP3tcJi_~
z9qe2|oi8oEFOnpa1{a+JCtca6Ch+ya&cz$!@k6>yX?8@w`ORmytM`h4PQJ*V<jCq1
z0f~p3<Il)hhq&W(uyd`sKP>%9UswN5vqkv+*@KouoDO!b(414&R0np3bo@SJ&FXz5
z<~XcR{zJmhwI5r2jRP5lu4~typyPC~bEz1MeZH;TLwt2!dE<Gm?Ce0C4tB1Eu-JbL
z=~xGATc)a@QvbL%(8(75usgQlJHL>Ll)-7UqSq`yhtK^z&jU8DS6nG`Hfnz(l&inv
z>x}JVXej0(yD0L_U%u!`w)s!F2%HYKkM>fK_E6ZK+AD%1Kex8nw&?*K6OOsM*Q$39
zUnFd|GvNFAoD1kkZa(evMs0n<N?Dr#j+W`FhA~*5Yc=IT`!@}Dt3Nr|^HP_sC<dp4
z?PGrA<!scBoO+|H^?|9v+7u(8V;MJjHg{-N=;o}zLeTyEqXIY`>~>$WTM=9^&9oT(
z?Rv<eq;41E8@@i+xpFz#jf2%g@0#fwo_L(bGe-qFe0yjuJFQvV-9sPNKA1}CCgF6j
zbB(-L&lO&5Pnn-rdicW0?5zY&2Rqju-oOz4p!$r-`lcOR!#dvvMqzy{?-UKS^VO`;
z?+Dw(&g1P(!|7n>N}kvKBz8e0Ovz*a`n-j!LH0Nu>|6&J27&3*)~=D4vZ6K-Rz%1G
z9jSMmH|n&N6#j%fWf<h2ni~CzuMc*vl{_oku4<IT9B=43?AJ>ERfN;Q&UJ`#%EK^*
z=RW1Nw~LT%u%J88af^5OVm0YkLc2NL#F>`YqX2a7#~=B%$0;z+A?4?ap#C_YsV}fT
z8V_0qDC11C!A;i1YXUy<({Vc3KIb(Y&BjW9`PcJyGPi}lW1--5u-j{P%a^vf-CD03
znQvRZa`aDY<8-j=G5hM<Y&AH$JuN1xDf_nWA`8&*SaW%opB6<_@#G6#vE$-?)g!RZ
zYn;SfX>Qv?_8nr24tjpZD*~s3or^%&X;AWQZrFKa=&?LmH<BJs2irOAgRm2=?R&pk
z@R4TrRg~2NI34VIW+&R6UgepIyoqYIFBjf?uWcA#AFPwH!g=k6EV1On$w6m>8B0Df
zI34U<tp>Z|?l+m5Uf=8WMwT2iL&E7`*His5Yu%fMX}R6!M>Gd)(rO4mM^1!g%Jr}L
zNrMg!GY;P^IgBA#pH!QUyv%M^k$`(2qlbv4!c?3NwvW{MD8i21OrEU6XU|jHot4Qr
z9c-Uo2`S0-W!4?eQvK0uR+aEc0G)-Npq44cCy5U;Ll1FG+rAwb#McKqmyY$o!51nY
zzi~(xSk@FLuFk{hVCSm8@U6{o*wXd+<61?HkJr2GfzB)6-Q|p#q*?9cyRtLi6E$RU
zI@r19!s%Y(*Zgnp-S2zIbC8#H>NCDR*ttRzJ%3%%vT^v59?Sn;>~>xe&^eTnInSk<
z*Ua+Drsv8rqf_oc$9#QFP}x?O&7!pn`r9Kqh7@o**go3?R5s_XP;VM5TrX{Zcf%}m
z0M=)s=WI_(fL1&EqavZxd_$+{K<9hG#8{0HZJkG{PSL$l&j|`n2Rm1UjJ=Shrug1j
zpZ1U3OVlxKoDO!o`_!3}D|`FA1s<^evTNyfVF5Zpc4he*yJFfTEYzR>ecWkW{Rv-Z
z>|FCQW>@O<KKP3C7|PlGnXrh!>0sw_8!_hSCO%Qi%%=2PiFT^$0Ua}jzQ#gs@|RN)
zT*G?xre$0}hjB^m*@;Sd+7qF30gNv@b~Sv2^*P@CCy8N{=zl4C&8}0z8{1=WI@mt_
zW0A9pygllxX8l<vGPdOy0UeQPp8#w70|(d1^F9#DUd<<f)4^`{Piv}_4!mh`Rn6}i
z-;mF_$oPP-4|XoA^IO_d4$gL0R9zI|wXHu(1v>7JN0%zaLavN$ZZ23$cYjC1>0syj
z#=oVl<DuTBAmu_yA9AaO1WpG#S9evIZIrzvtL$#)x7*z2l?M7@eRwv`k7_&)kGsM1
zK{bDG_Ye)}@I?y-&khf+@*h8YYee~h5E<ymzFY8J_&S`(yu6g$OpA<?06N)QWLkvM
zWFG32t=VETA6h@~9@gj5rs)sGLj97HJ9chT_j_4Q13E7X_C|XxWyCnG7*#Xc%JPy7
zbXJ~t{qvoTh&1Df?;$(qt|Jmar{y`j`ty_Xn*<v+3;a2`cw(Rr)+gY}^;f%vi>R|5
zE6$8*v?bAiPR`c#Z#5HJomgFN$ViJ_{6hvh$D}I#UG#RX6frWLwsF4wT>|JhM7H?<
zijlNO&o>|Fh4rBggtGTl%&k)%Yk$~$Eu^0Ybn>~MUtnb)B*~eJaDM)G`6n6ZJjfWd
zZxU#Fhn}}C0d%eqd#z<c@2D?7N1g%e^VhC+wszB|8064^PGP8lu29$4bTk(k=v<Fi
z8Zud>u?nq60_b3$+dj|(>w|r6I}PZ(tDhU&_WMK9QmE9BWPxiu8R$Ix5gA@0H4r=g
zR{YVEySsl&;B>IBgG<qJe^$P;ry^(c9lkzTXY=-sktWltddMjPI!3I~eDC*G#@>$k
z;Zvwwbd`eB!9E8;%q?;CS?zv)<dA@lboeXgKrg`^IYgkNz$JM`+-3hU<Pd;P|M;KH
z()L9kki+c8x4p1^W<1r71sBWgK@J1x?7qf*JKf~&Pvp>njwY}8BRb2>Z{$#cj_sC?
zf~>g4S>#ZF4tq!bqt1#CkC8(HI(#t!J-6i=`;bEfIuD+0>Ava`rh*&-(0QV<Mw=`!
zn2a1|7i|A&CXK0DT$CP04g=^|b(rl9JgnV|96Hc>k|wmZZ-844IaHvtlEztGzGqcF
zawtH@T=Xj8WSP!U<dA^QzuD9<>DiX+$RPq9yIRF2F$0}!<Pd;P+eDpy*_+@0?LVEc
z{b%#esH{MVUF*<#7(mB?wyXbq?5E}9iw<;luS+frrJ5|i?ofeFo6}SSuW9r@G#3Tv
zykC1j?3cvXTI7&`j@XJ-!yf!+3XnqtI+f98n_RRELy<!OI%8Xnb~einY9fc(0o#A>
zd&wDw=-Dl=hXHi7HNr2O*vf06_0WNij91IQUdfy><WPam@$7mp$%vTC$e{oo@xp+K
z#joL?kwXGHt<k9&j#_WSkwXMJtYc5s<_86EA%_5TSZW_QHbi{uLJqSXw*O=wlG~Ex
z++Bej2GH5KN=M4(g&+Yrbf9zNq;W%;YsT{VkP37pLx}OhPj)7t^-zFLN>1AKPg$wf
z$RPopGM1>6myJ8GAcqKaEJxPOdTL)%Mh*e!r1WGISBScOK@PJGw*L$|vwrp>+KM2D
z0dySYf94OxN=G7x4s?G0<Gyt)?@2Los6dBM=kUE?jiLo|C_u-~$T(tW^p<PLApxCW
z@uqLjbhv$uOQhHF=HwnB;&iarX%qMR5sWob@23U3Ri;{m_%q+)+wNG$W90Igkj>_t
zji;x-dD?Z$(}9lcVNPp5-KSyKnTLKwUNE(w0G+y}zQ%det?!US1Uf4f#DX;Wn(iWp
z*$V4(g5%JS^^E#ou{ONx$m>tspaY#(b<av8oQ~?b_)OlWPjx(}0G%u;?Wfv({>>F#
zD~dbEjwKLrI@sqsC~q~eEo&ZorZbY})NteM2QHircK_k!a4CFdG!<$_J$ODuJcYfX
z1=jf$FZbN(S%VLWcYjY--xy&;03DT?U+?7~Ft*3v{>x@k7RaIpbbN!Yh+9g@vxZ5T
zgWbW$$GLDi*v=P4PL0P?%VS=JCh43=bZ=xd!}^r5HAjB<qcy3)sg%CqdYLH|==>Y?
z%#Y=YdHL=0HkQGY(!nI4Gtpkcc=OrPH2JQUZDE|SD*@;nijrCFyCyYsv!hVU?=M9q
zj3!tg&N?x}M_zP41=EndYi(DlQ*k=j?e$&m{WIR{mxV>yvvhY8{Z88Bbg;+8_xC3{
zv>anD)?6<ZE_!OXK^Ewow6$j+4L<9U#-J5GpSLa>ZN%3HJ6ED$Op-uCytD4&r+JcO
zekvWOgPlugMY+%V2;=?ye|<~BMx87vKxg&+)>O;gZ`C$$uJm53bUvC0bgtdd4GZa0
zJ>7r%aNv}N?qB8`e0{KU4V~K^7@F*{E$U@f=c4iCJ33AW+qug$FeiMQiZH3>XibfG
zgHQxc2fH3)izM+}*6AB@)Yp9FgrN6&K<BI(cfaF}N9?|brbkqs>Md{qor+QwAyRz(
zQ|ISX_g2Sr%QZB>I(wygk2Lk@^m=LLw^s|+9*h7wwc_`MRRVIQwY<mV^Ao=0=>eUo
zk+e%GztUJ2c7N1P^P}r=0iB8gXQz%*)5VL=x*D$P?<Y6Z!}?SN{NFunYuB22hIH0$
zT5aqc0d!~vAMDS^Q6sOZI<ygGMZ@)gj+u(Q_>5a?EpoVk4x6LV--{coGLX|y2kWCZ
z|L*Zw`I`mLj<>mnxF&9n06JXtI;Qt71{`>OQ~XA?>JU>8>Qvu7HllK@hd;^k>MKsE
zn_M^@?B^FM(>jOKS@zt$dHUMvz)X!7qqVR;2hP*4oAIt-M$bN!xaHDVk_U9IJnS^{
z%~L$EeXU8}<Dkn2?SalyRu(Ru&$FGY`E?pjUKYA83v?=uWzMwusH*wb?)r6<m4##U
zHLMTyyu;+&cFUJFyNp$jBue_^0i6kPr<Bl9sVwe*ErRa?33K*19qe<`>+UntN)?2!
z1~{J5G}rL1F~aF!UoTuv{bMdI*2f@60O)9)o4LR@-T6{k_JM`U@WY_C8ho9xpP#Pd
z5-uCoA7A?=K985{t>+{a=-9>;x+wd*XQR2uI2~*s^QF)0cxo3<tG*3N*OJ&dA^~(}
zvr^4oq`caJoPk&P`e4^{`T}_-;To-pZKYg7kC)OL8cqk>`Sq>X{Ff=;xV?|kTl$2W
z66|q0*!^&6l-3!#l<AbNMZRjur}Eecr-NOO$MIpU!)0TiZFYS!=19G`hJe$-_K6n}
z{Uf!-E6%=3Ifm=g$`y>4u+A#azFibK*rGl3HHB^dXmu79r-OZ8cW&y_lN1|6-hho0
zYxbNm8neggVCQ=AY+b_Z#7tv5^A+y`hPs?&aXQ$}h7lKRH>m8=5>6%Xy)3ohoT`TP
zNpEUCOOQ}7E9-DQEW1bJcM;H0i(Gt12>mVO*ZkKpTAK5QJJ31FT9LRqs<m#GuhQv$
z@*Oh;pmSKjL+l7o@b(i)JEnUHyF{j5!1{<ZTRV!!u2Vx!5zuLtQ9nEQgLrgz_IyCW
zqfbfhI34VE|0Yl7;Na|Aha4i%=_uiej0+tbMRT#>bg=s~_CBKO=djLcQ_``zl${c2
zu0Wg)wolO6OINbwi}xZ&59oaSSN~(HuDvdD1c1)g`Y&V-LEbUsFsktN!Orz9HOF~|
z<)XFH8}$}dn=7YiKnHujmOV}fyWK;-l=VeD3cT6lF4Dg6;l7hB&{_MKWkUV2*nYY3
z_+zoRhr&mn;p>B4&x!3d=bF=gCR=>?uKRS%w=NIps7||&ix@l1Xy|H=o)NOvwg)<8
z*OErUsx4KKBMWp!lw5dv-11#kJ+P5o^++vtv=Y{*XOvaU>Sp8}+SsXhHuZd=JfQQV
zR_bv=!iPj2i#_K`{)#-Y$LV1AXYBhQ1)x)*w`oSs(BPcI(b$I<#CjE&Px18;!u%3%
zns3mdfQ72?zRDs&Plw23dN|j^gK=I;j%+B{rRFugq)c>CrHB~ebVM*tv{*^8XLPF3
zfHlA2wVir0bezsgjMGUT%hkIzn;$ORda>%FO;8L@hZp1Mb%mbj@%<s;xT<32!O{_b
z8cv53<HR4c<T9H&#4Nn4{k2h9E&%U(u=~%|vFmZKyrw*YJTA6*M$$HtaIOdYcQ=cb
zTSAAamaqLI#m@P|TlW!hI@tACM;uS~(dtPZNL^W+Jl3<11*ap3>C<=fd;N6<%Pl&G
zPIlX@VE59->0sZlS|0Ve^?it_{EU9&=L4&ap#nG^>|9UA*Kx!Kq}iPHFxxS}abPP0
z=kdjlnM=}F@5GNx?oF{ljMKwI3DsOU*MmLJ-?<zrq|#{m{{HqizOA=4oEmVh2fN*C
z_O<$kPznSNuslD|T*3A%52u6OpZ~R5XmonCe2AMV+j*+;q%jqzgFQ~St~pno-Y1%<
z_3`fBc=~-?cbpFP@3{7*ck!1hkGq5`w%z6F%DzVeI)4^8xOnv4xX|a++BhBTet3v|
zU%N0lR26+rEr8R(?uSBe&c7`CbU**5$CZ^okG+s#Ji&LK$L>E8V@+jb57~tXxwZhu
zQu+@n(D}EHa#7WF*M411mpFD~KM@j6XB+0Ym~SMs#|<7$z3i))$#VQD1@HF49$$5n
z&Hed`i;=ujO)dSms-8sP?2J7w(pVhJ-Jia`6VH+<axbFH%pRx1jhPGkcP?HByWI(v
zvl$y>sUOb&3KrZxN^McVxgM;8{d<{-b9-U;pZdlf&n9HM$~iV!FDWbh{zV5m*zfO9
zfR26fmHsx*_ECj;T1T&c_5cy+V818Dq{EJ{yf^MV?QX-*(feLH(1~^C)zOQP>_Xp@
zq5vJ)H7`OP`kmgR@9z+Sj(+|pmE`Vsx6$`^m=&--*z2@(p!3UyB>mRWHw&$Y0(9=*
zd{$+3V%~7M574=;yzzboTkA2j9%ebL&%zl+ox9m@-=Ou-fljB|yMJ>b$G4e`3QUOA
zr5&UI9n0Mu2T0QH9cV5h(8=rUrX)Q&9fTZa8LW@E<w<vkFzpM=eSpp)+n}EJo<a`f
zP=F5hIvWw_V85@&EQR%X-M}yK@`A(iaY_d|4^0f(0`n<b(DtGLoiAtDzHX0Y?hnbh
zWT5@QKb{D5KFxN&{5Z!}X1V=4Lp!)ui&+Beb1WwO4&S~fH002M4k_iP;-RhO3do@V
zomXnIn!|N(Dv?73I<y4!w%}|Y#S(VDl@Io{{AL!z`s82EKBYEAaY7Cq=;)N`<;Uw!
ztXV$3fDZO}CjuSp@y>h<>*HZwHtn8gc?!)%2RffQH{JSO_`?7>6rdBN6}TsB=JQA7
z5TTBU{A#wdMia<k7Qy<&Xo#N=&Ct|G4jt%}p7?9|#nXNkITWB1Sh2p;B&~fNa)?0Z
zk3P?}U#V0Z<S-w>`h5R+hh076KrwRYKnMFifdX_+{o+_M*&+W3t%nG7ob?Xc*Uu}i
zM-KBLtdHX6pEvy-jvYh}9q4?I(et@^@!kgHP=F5h`|m`c^YC?Mqc~a67`>lo7Q*`U
zdZw=)xoL6(Idq_7_)K0YYw$-UawtIO``z|qmclk}$RPrqMX@)diqD(ak;5#2^%>@u
zDXGb^QbrCP>U`wgoM4!(j~oinIkXt&VYfE35IIDkbMw;kK*hh&|B%Cc0PAyqhkon+
zFss$bp#z;w3-$3~eND^zAqD8PCG_i7m0KJ~>mdRii$Kx9ZtY$ga+vpFeFXZCrELmW
zTHX)oK*u2X(dnn3FHWHKP=HQ{u&cz5=#@<55P=S(A-?v_vpPZKF!N!3{4`DvsU6zZ
zf*d-~vHxnxS{AV&g&YddnVIEehEEFrcm4r7H(YWKdDN^5LhE7X!TPXXU+>?p-TMwX
zbf6Qvc#`Xq<_$aKP=HRi%iG*(55>F4Ap#vYdHdd~2Oay7!_0;C`L|NgsGsAY3v%c{
zr<pQw&)`bCD{?46XMaGs+UP&^IOGt44sW1RZgYW&FmjkVus+vC?8Lt7pH@W<9q7D&
z{gGX4_vk(3P=F5hIwTS3+*Hvixa7!If!4#k2kWyw^lr!aKN&J|=s;)SFhAF@jn_})
zP=L-_g2fA}@j^Uuh(M>2U)M?3cly8cb2h9`ipRM_9A>&hXgzeGW1T+yC~t4g7vxZY
zj(h&aN{<gRxyT^`omrWc()PE?&mxDJ1?%%Z*RPy?Qr#OlbfD8@uWejj()b)X6rhvv
zBWOqHPrEGS5P{AG#*WwB%F{E*VP?YmoVmd3<{Yq<A31cO6TbW2rN9Gz|DB(KPSj`X
z#-@ORVYD71&<VZzTiLYjoGEgc8L&Qmtvqj!D9KtNhYob=@?x9>Yj)j44h86hyX<5w
zW2)Uk4iV@m^6nbGy5hkAa+ow&AGduD*Rs!vh$4p$bU4o)kqfx{CjdDVpmS}nzTImp
zDKF#@fzAZ$spcP%7v_+|Oo#O$`Vu!^^-KNl?^B?&m0#qk^b422Xgw65!&10zVzr6l
z^7|Gd&{=zVh02<9nd{Mdm}#&+h4h|H$F6cPkV6ML(kn8oe7B6)Acq2UYG>l2R)h<D
zLk<z>SO*pw+RQZgA%~d?>vQ;So9pT6oPOlcflgDfe`TO6_wsp_0(9PYSlxH`Rlb7O
zLj*eH>?2W%?6=P$hnWKF^H61YvdB8!898*IQ*A8x*uPh5BXTG}hkIA7b;}>cy~rT~
z9g*u#s@LwinTZ@`GOW++yO>*H0_kg!LkBt*TXJ_0EH!75LjgK`NA{0;)Uhp}H;6zd
z`mW9jwT_<U^)T<k`c!VRFF4$~yAjPr2Rh$3cc;2-IjDvl3eagf?{7hU-qeg7BG3_D
zci5oO;JP|;m`Sic5$|5B|8!eezAj1!I)sZv^3}DH`Di^9pc6k{zRBj+v^H{xK&P<7
zMbc$SV);4%lM3sT;9F5F_H6V4S`QuQNR55nl~Lm=gB%Lb(R$gpzJ_gq6FEenlgK97
zqT0=O5IM{{us&aJ(+%%_I=6hCjSh4iZ&-#~H{E@R)<Xe0H(!;+R5jmO{(FZAbc|LN
z9ZRq@U7m}X2<wy3!Tl)AQZc^WNnd3DF3w0gP6vCx-&XAn`L+71HX$bv=&+ytnedg;
z?S&jYptCEMTH9C3se~K>pkv5xeSE>du?jhi+xR+T``j6nq+gWmQ$-F9=%_C~%rOkN
z_=X&NpmY0@EKxj)aR)gHK<B`=2$^z@#{0-&Ccygm5(dvSpSZmlIn_WXQt9p0*V|~p
z$cX?tt~D!c2i3ghkYfaNu=m9ga5~ugU~T55e=D;!=c4<g81eWzW1YO!ci3;y%1w|%
z1v=j8kIJw6*o+~E1az?Xj}d^*WQ3H6PM~HrS`Q-*)~A<wS>)s0-Tla+0v%@;OWH`l
z-U;N8fKJFOjV9{5A|>PyfX=g@WN%ZCE6WZe7S_kLkjK<uF@6!PhYEC>*YBxaN+{Mv
z4hiU(E6%+SzWP2CIRv0X8{gGjx}9e~au_kNK7BLhee2HdUXL6q(BV$6%bql7*o7Pt
z&^ha0=)}s)(}ElV&}o&wn`HV#;J@?FEm)tUiX~I0Jrb{>^-zHh_I^<k(0S=*=5#W4
zgo4&X06MJd86CG9-`+wFBO2C6M}AbLI4kMD^AFHD=-V^i$NRA!t%n43*81OC7~}3c
zf*b<Su?S-``z$`NJQpJh*5~}g$=4^2KPy4&p#mK(YG8v^ed+*mNI*xk;>HF355zCX
zApo6>#luXO-W@5(VcdlE5sNpyvhIoAcjQokPU;g9c|w>Zj~o)vu@!r8MYwadHF5|*
zhe9~4ZK!#SA32O0us+d00!v-<WWOPY3Uu6fCa=VO(_Vob63{U_BEcf?TvQA>1fauu
zDo!@z;O1iFFd|`nn5`;Lj1|<okwXPK-qQ&mS7+;5A%_HX8jA0mKbYL+gd76UnWN99
z)3YRRAct`s)+a8CyCKYCJq<ZjptHkq^F0~Sdw-Eb0y-lB-uEmc4@4t}0CWfjS5EGj
ztw=x)BLdcE#hs8&$sMiB=T$1uu}n&lm7uV$LF*v_9YW60=nY>4mcJ)O06O0r?VfQz
zyrYBG!w84<@!N5@{lejQbI73rox@kt`68m%<{^g!bQ<iI7^Yv@mR~OjKu7GGZE1ZN
z+w%A07-6tJ-c&W&Ywv}xqq(R+r|ZwJf+NFAKFA>fowu=%l~>>HaX=0M=wQFE#|VY>
zF?^FZ*{^53{Jl0R(E0n4WZ|z|REOpw0Udwm#E?_w2VNkD0CWmxSlZ*sL~rCULSTK^
zRak1h$Ej(^p#mMdADTl~ow&o0LjpQ0!_Pe|mP!AE90Jg>uG_C`K9Mbl97Zs#&%udd
z)!p0wET1>1K!+5tb#AxW-T<^7643cPU?I2Xg7xz24gu&artbZ5S~Y$ZS`Q-#)@Nx2
z+sqo_;mydQ0-bdpjmjt9WM4uK3FwsHUA=nE)Aaw|9|9fk5%s6D8<Q2#dKlMWeTeH>
zk8<R(?nVw3=+qc_I`3K3X+RDM=#cKth2JSDFh>pn=sa6ZE_oE6IEfraAgs^($`8D@
z11es~p#q)K@e2>6bdMz=hXiyKdc<9(dZgo#LjXDw2{U{4)XA43hY<klvwNFvf@o`D
z5pt+NCrS5Kkfq5-TjY>{jzRc8)zymb7mz~$I=T;8Cjabv!-pJ(KdjH7eBqyI@AquT
zp#q(vZvWF_uhf>W^OJy%wun^eM8dyEXgvg=WBA0sgLP`>@^v=GRal>wNqX7h=d#$*
zdZ<9B&TG(PMS#S6<dA@l)vgSua+^jA<Pd;PBv)HuqVneD*HeZctk0EQX&PB=O5$ie
zRG`y1U|CUY^`RX(B%t%c{*30`yHU#y0q9H{`fs%^_93A4FnnQs2$W=5ouK^X>rqso
zqgTdH(+oen{JxF^bOh!S15H$~{P*_-(D|~rk^g;8g6wjiE3iHXrEFix{teuN94gRh
z+q3a&QO~C3_n9Q1gZ(`a0?@gBKHQAgtECIg#qfdknO+%u@jbt;A9AQbM<UH<Crj50
z3FMG~PMS<Yh~dr9)5swJoof^e!WpNd%b&+FD6l>SXSu?CPJLyd^-zIMVFk&|s-V3Q
zIV7Ny5FcBnog`a`90JgJPRh>pbM~1)4#OMPC$Be6?pcY$JaVW&=h#xTXz6bSUgVH~
z&Wnwox+9tm3y?zqI_y@*1vs9IEg^?-8P+HL(q@C|B?TVjP=U^wH?u+p>^3#XApspR
zQVsbwXM!qn2temi?jh3n&M%*k!?*<NbEdxMt+0tpFmk9sM`X{(`n5UkN037TI?tl7
zRYe8A@<9#(=;S7~9^($?{O|g_7pxD3;XAtZu{sx84;AQekF;0vvuiA0?<E19_np~^
zCxkstp!E=dPPe|n@dIq}wa8(3!uq&#%C8HOxIc~@D$v3HeiRAlV1HMQ0CXhZawrwK
zr4FOH7#^@bhtAGTxU@|y{|*%u==9t?G!gn^WcfNa3FxeDk1LS6H86wbA^;szjh&9g
zoTTN~9mYjipXlDazk-%J+tGTcKxaekzBLc@udpD81av&M@$ze*mg7ba0qA_Up#QFW
zm_kJk!yVQ~`(hSl@ar=J<WPYQ<HXj?7v3q$*Xu|?XI((lFZ~A7<>Q?Ibh4_=H!5!n
zTtIU%++cn7?>D@2^!Rf_<WPZ5)O6CG3o)x~kV67G*x#8X03Gb_4KiF|eYy)cO6QLV
zyP&zKK*z&S<5HPlqYQFLK*u2O;@Xp2z5hGDfKJ%`pbQ=tkLAy07%s3r(=jGdb;fix
zG#3@<d^!J0fwg1xS>%v_&htwj_C5@|_22tvpd+fOlTUuxIEvQ8aEA4<yC{FA>g@ZK
z$e{uqt+ej}M*gM$oqvGNNq72gg&vMqXgvg=llhKi=Z@DqIgrC}g7rBh+SAt4Nnidu
zg$i_3-!h~XZ7Q##^^ky$``=mPv0Wl%$RPlo_<j|pYlg>O<S-mzeN5lH&MTZ3xQQGp
z(22E|R!C^ejzSIz=xnTs^KX_@ZbA+L=&)XUdj7Me=2qk|9AJF}*Gn`$V0`@V{vV)|
zYVjj0qwUP{en<j3v_Y?xe8dB;Xf6WKDc+tOc*K3@^5;Yhdsv^W>kpY>>`u#{J5YfR
z3*TU4hq}%3eGVj`^JOlKk5PU0>2e>S)0ij!u{UC3d3!M~0Q>ZG-n^P08jjXO1v;Nh
zMg1>_cQcVg0y?ymj%uq;`Q_JT0?^^iSRr7$#`C}HtLI^TGFL@?sI;ruh329Ho%zCh
zyxBcIy~rT}9mZ%2H;s+$F>(k%hi}7K=UlOzLF6#b!TQKu4olApUwn%kD$o)0C=)Sg
zE?NG&fCO}IQA2Yx<?bwB$0h(BYd+4Nwt)`~a^@nOpZ{I{$*_a<p?v>TH?%%75IIz!
zlbIsEF4f4?1vw<3LsvT9SW(}#5;+8*^GG~=gUj!$BgkRc!uo8pdfm(na&$rt73dtR
zzqmj8`>Q+1ApxCy?&lX+*#}9;Apo7IJgI9OCpXq2hhYQj^Y!LWMMBdHB66reXLJ9;
zz@xovp~xWt9rKx3`ikv)y^uoyI!=|pa>RIktw0XrEUeG<BA3reW*g>_Lj^j1su>oS
zmujVuLjpPuCBqL~_B=924gu(dyx>UjE*>^U4ucHqGei56^`Ut`J94N%N9?j?xyEJB
zFyxScPU~Wx3g`C&Z;(R(I&@Jki6Xw4<>Qob2G(c#-M;zk){L`jw-d{&UcMHk0v&;K
z56{p3Iqi-d63`hEqZyjyUK&OY0q9)2FZTLMW=#fi7}l^pEFSGwH98%-kwXPKzppO}
zeXwlXgd7skdE_0~cj~yZ9C8Ri=Z>*sOuB=DD{>g8VSRe;KmN=9Mmh~SRG_1D<9OdV
z_tP5WkbutNMfX<KzmhS?ApjlT+rP%PFS?8(hhYWlvr}1lm3N#H;|5>O-0=2(Whzbw
z`+Egdj}#+b-dAfw4jJh1$kncIB&uZB<ixh|uj-PM#pz(bw{E@n>&Fw<DGSIMwS@JN
z{5>pYc<jsA`<sn_a@U7e=HYa(edg0OdCC<9T#@4rboigWEuA|nBv)4@?c_s9Od;ZQ
zu+M$7bx<3Ti>vb<i;!knQ2XS{1$0K&?6Y>sxnrGpJeT!rOGzig0@gW8VVj!kZM6yH
zP=Ssa^=XM|)8m;1)zFrahv%|MK&O6TxZtPDOEvUd7y{6VFkd?0CM)ZP9ELfp&q`w0
zrBpw?*Xa4VRG{;2(q}raR7%1*_)7H#vYRUjr-OYCopiq!QOV|r^^NoM0zUnx_7Q<j
zZtUbtW1&gh^7H6%I@sqtzI?E{{E}O@7<wK(7fuIzT%?W2)wC7o<plq|W#CW0{)a)r
zx4p2(`zif;J+WUjzK;w46wOH7<20NOc0Ha6!$w+CUf)%Bx>edp9aeV7>2P75_a~&P
zW^(cbD`CG@M!~MRnh|@P4)(k%`Fxld5n{!A`02@mbViwsEKUcz|MZPaFcY>eb*eWH
z+Wgu*BFBZ(!S=cF??~#ds$TOy37$41GY)$hX85)jcCIycCa3>>l>HnepX4NMEB=g%
z)4^_ckplL6<vhvXPX={;@LV<5MaJo1*Ta8rX#Lwm`D+BU{ALLiU++i&9k**Sl%L&$
zzc?gE&KuXh(;qkm>!Z_l@%Ort6&-C78~WR{(x+%R9qe;dV{Dhm2Q(Z`NHgxfcZ~D;
zL&51_J8z8cts1MUl9ZmZSMGQb=&y~_!FI0F`7@DN6~->w`D5(H7W!EhoDOz9J+&9a
zDr%KWUHtZIygtswXfTC!er+ZCCc?%`uE2(_={tG9AOfd@?JVcmtxWu|MazoirsCQ1
zCzfQKjw0r~ab!%$(O&Yr<Un203$y0IGkCW<_IMxcs}c5bNIbCpRGpz#@(YhZoSm`T
z>%lqMtDj!_%WDNGueg%A!5!~*$DTI=9Ao;X$VxwQGMERWJMHEKfa}@McC6#Nyg)?c
z**jMT3o2#XaCXM_(VURlCfnY+Mvni<k2p=@uOgfd_W8n7FKwFxOjW(~GGtYB{GHmV
zI2~-CgRe9X98-_0?bzo1kvS)rZx3{^&xa-Abg;))<*q|Y`K{F!PjZAeC&iH*S#Ubo
zxlBIpzwyfGbb6tZ`Gs1t)91F6_>NQTdW;7Cjw}XnzCaEY=sZ8;yZK^+_bhVAK<7t2
zN6<@O-7m<I1v*<5s9VddWQ&k9bpqChMLS?;WAcp><j{dmX0q^yJC`%wA}0{&bhz37
zt2ZS1G$u=a?mw8jLl38eJx;OD7na58V9#UQldR0F+)joNX<wALAGkI?Y69zQbmiU&
z8I9<^)w1VJj1zwJ7XcmV-Ntz=>z!S#$I4AjTN|S&I34U<(Z8lQtsN%)DmCzZ;>_!O
zfCzL>%2HE`spj7Md&0V3=umeujq&xtuBVUxyWmf8Q{E_DU#_eTRbh0XBObSFqm#aM
zAo1Ac)cujq6(~3z?D<D6_s8PQMj4re3p?aiZ#WsChtt8He@y4CL;^dypMR}32--Dt
zc~}6agMFWHZ&RT1yERlgaz>5tb;dfLfkr1kh@^$OJJ@DKtb6ZNjnl#Qd2rM>Q@fm$
z_$83#n+SWAehf|r+lQ{Ce?8(9k2-QlK*u$mS@-otzVU(3*&B<l`wmM09qjYOM~~y{
zjNPBH&jHT^I@H*6ukQ#xs49M(`(_K5bgw<oQ4{2lG~Vdrg|17;0v)@E-+!qW^vRt*
z<=)S>XDEywgZ1GMJ@YF{WRogdPae?u>=bjnaHjhza_oW5^S>5)tm6j9^)B+WX9wgq
z%L1L7vX2Jym#i(H9^P`nqiVnAs3EM+Vci5{E9=9)iWAY4`i5^Vc|b=|?$~LI&d4{<
zaw`Mo>WtFtaXQ%J^h|no&fo;wH-h3OZPO#0+ZAv+*yBQu;L*ZWCgPAhJi4KFt>d++
zqp&`QOf~o~FLn`$4^7=txR2%)0iE%+!4@lav;CTAX}MjKB+lxN)4{&qSn2F{V0hP2
zmjB1zo5$tYy#N2Lv`DK|s8m{%_En{{XpstOCGC<Hv_}$3Qd()1Hd=`G#oD5jk|ar_
zRjbl2M8Es<_+H2R@%YZ?cYQmZxBGr?{PVhI=9uRkbIhD`&N<iF<@R04IqoiLeM5{K
zG(Pisn<`3T)HQP}=?Y|xg2Whba{64l6(fac@>&{l`vt>v@3rj27w1&wJ^JIhpLd@$
zx%sYz(S3U)P7eEg#Qj!TBiAbNt{0SYa}N!1a>mRKON?^ed$m_N++3KM!HoeYN1x~3
zDHm-q3Rc5?Q#Q_*$69pp#Yfxi>08#NwHY@A8;6-{jx$E$<g`EeIw~~Rm9P}V)4%bS
zYm6aIPS9XUXZW4dVXu#}zF6$aJ;H#KGkW&H>FJ2Zw#@LMk7Ole5-mFT;?w13c=E%R
z=`ZIiZ0)T-?YSC>le7Dh5gEJg%ooAb-I~*O>*WkFa?o{5-gO<-T_ZUGSfAN2a?tB^
zk|wMz((zciK^6CHTm91}9oqQf!@R;GB34nQ8_s*<adI35x4Fh9u40jKsXo#4t$Bkf
zPR<=2;rp%K3vyqn$mUq1B(&IYa@G`(j4Kwfs|kOM(T}>^f4)NtUwlp)pJct&%S)fB
zq}Kd8wXh)`Cug<hIF%01g*2<(Z!fvqRVtd|<g8)Q5th36-7wJMW2cI#pD7zo&YRvH
z8pr!n*SAtE*sdW{qwUy%Ek5XcJ{|0LvA^#{Yf$I$rv1rpg;Ftc(E0o<=DfsqZ<^Q@
z=@Fxw)E?Da;p9-0DSsU2q7_xrQXW3YY^lnPlT(+wkWwtp;ve8-tZb&_UDKn9Ek0<!
z>dP<ZcTy$Pfj_A@IkA)`d69!<;e#>Rv{cXCKUrbqpyQSPSa-`-CyvM9k03@4+ON+U
zS4|!zSBoe-KXXlmTlB-Q2EO<NuyPDpAD;LiEqK#hX5jXjY>XVVUxM}3x<gt1rVyW_
zI5}~tp+^1>Z=Znp$YbQ7@!5B#N}lf0-A^4qd}r+M_<1g<V~Y>kFV=GjGCpH_7m~^&
z+a{FK^D8lOP=7v1xzN0J%W<K*X(LE?XKU1HoSfIgr0n~{LgP|Ljbq3abC^|ea&Ah6
z2)jS?d3n<+@R7P2=Q$FL95g<5%x6!;O+`=spq?YIZq-$;SHl-)MVFR?l!lFbr8S1P
zn?@NZA~AB9knce#%bFD(PAiAVim4~<7T$fe10x4L-<X`7*uC+PE{V@YJ#vvVr2W|#
zIqMLA4orx?tCV2hwpY4-!JmYAojk@kJ0P5|N3U2$HJ8QcvKN0P>3lATbzMcje@}^h
z=&KYK>FDYtcvj%#nsp2q*Jt$mi<a-z^t!#gr*^)u?|Tt;Ep-9oI<^|=*GEQ=>?sZF
z`SuqES4GXY<YMg?>QB*bQCD_mx6K=x1akaL>xQT>_6xmE_Zm@gKGV{c08Tx|exaOi
zN#brb@5hsX6M~boZ)jog%E32>r5Y5UDcJZKYh&b~*C~3g#ek86_RF!*?_G=gi(&C6
zsjY8LW%jh-T%XbNu}GYp@NGPI1<$Q(xLXsG{rp%My&+DH)_rBQHG`xFPi}tNzxGkS
z5(7?7McT9qd0v?>>{nYbUhim}(fw*9P7eD2TN&cyp#Q%W15OV5`=Tuv*Htt==>O-7
z^?reJ(BF+W#OV+EyPym>Ijl{VPV1sLw(d<3nR>$}#@ezS+x-;n*BNV1zl<$~a*~<f
z0&d;uPKd<FLDvo4knWCy+gH%CSMTlIwAsVR6e9=qM^9tucvVVo9{9tCk%Ri<va|Ve
z<>DJd@TW%=UwqKtdr!s5L4Wt#3MU8sePeE%oNwnxW<S##?xYZv$~#A*XW65IEk5Xb
zXsRa@ByDZhoVOMw<;WVnbg%;>2R#=hwf`caUAy{m$9l05>Y&Ye<rq2WevG~#c@sxq
zb=1C_kyPJrUnB{^$U*0iK%>g3=V>CHTl}Ir_QWNH8Diw1^SN=C<Xw)ul+&jimtI+U
z&8}d;$U*ll4IT8kqh?oyt&Oj>MNcpvS=fecywEtm+BelP*0BFppUa!A^K%Qa9T++2
z_k*7wU70kr&mt8fr*IEFIHQ)2k%PurWL2!^b!n9@F4vV~>&&<~eK2y+abM{-OT(SO
zdf}{O3csSt*swNEjuge`p6-fy`xDcajQidl(q+TQLHothU6x^Wy)k`}jC(OZs=Tj9
z8Q*xJ&x4g1Ip{n@p9fFl<gnD-%s+F~-f&A!XLrnKucazZ&dquUtMhUPQ@#Yokad22
zT}XnHvvi1Seb05qdq>psG7n9DAg@%y7H9PO(je1*vwO$ogYX`8HbxE_=L3hVregzB
z8_6kzV_$nnH8^7Apz~+AMwLx7g3Tj-mxX8Wy+vAaj2zS-p=<BFTBuS>8Qq&Qnw`Yd
zCKa*82j#53?od>JMbM%my4ZKkb&`U7oSXy^&X|6RFAbz8#%sf;edLbf<Z$UN^;HSn
z7=!oK#c^^3#ihTChC9Dx8Ep}++41h`<W_9)LB}hj{As87gQFQ`ol#of8ZX~3$H{4*
z7WJXoY(h5|zpW@SFWu=hMh?0j?vKvOO?a87J)ibQWy-fR#SkM0eeO1-qc#f*Ogl{`
zc8P5>#ol@!j2!fSfxb70)gLs@7tixvG47I^fqfktMt{)xe2i?V`-dh&C~!Iyu#G#)
z(Z1VHukf*93vl9ba@x7-48`tU6VamB{kZhK+lVPnPOz4V%PPCx;5#*YWnOHce#3^5
zgO1nU6i@!rfg_R^7Bpu=5A8Fbl*bkybRNE(8+|dCyN;1$-ncTsC55ySBZmh$|LGBs
zJoC;YrKCF6ZE3%=8*2#0exc*#m64t&{Hku1i|?n)<&&)swQ+LL_XeqOay-0)!-ucl
zl`U%{D||VsA6t(xK4`z*dNG{iD*0i(qHcvagH+JV5R4r3`ntC2xU^WbbU@y_du_V~
zo^=^w<e>hHOXd!@nUVy3vsT*i#Bip90Vn5X){%IH@(Vpylu|DOo<8nvk;66*QGae1
zu9fwlO7~AnRI$yAW^s+g$;qUV%CS^9!BcpxE_K{wLDCQ>XC~=*Z0T%mTm^gBD~=7q
z9~p3R@>mvD3@gXzMhHxYo)*wzX_3VjA46vS_U!g8=8K}445rhfGm$tsKQg)^OZIcr
zzTuUo8otfG$`B`K>iuRu)0B*7<Zn~=Fj*IeFks}M^O<G-+8|S_tlk=V_SBp!No^f6
z*y4k(WA7Z*&A(1=BAw<h8F<$tc`zFz2VGY$Rhm?U9C*;SDEVGB<z%_`X^b3nK5Nc=
z%zHlT-TL{MMC#6yyeX<UIX&NU*oQuJtQM5M#akgx(oTYtQ%rF=Kh`?grILm7(S$pH
zY^5}|IHUbKtL`}{<2%J!;J8W7PdjnsG)4|O?glU2f~@bc2UzM)mGs8hI%;F&p#GS(
zx=ha{7<%4$vnaIU)b$W5oScknp@CU-BIH`nlCI4RtQe}7!WW-SGYjvP>4ct?C$;%C
zi7QHl;N-B49;hSfxUF|l{-Uso67@=LoE-H1Ix3tT^!>VeNo?^!&o|Kb>#{L&&~e{*
z%Acc5Y+N4B=N)l!(DQjgoE-GMuVD#n@j?5AzW0@llY_o@>WGtrzIQ5!k%M0E==)=n
z;`ri&zCV_ak%Rh!zVGLQk%NvG`W}%yP7eAW(SjJZ_@Mnl-|wx&$U*yszTbNqCkK7M
zP8BByeLso>CkOrhv{DpXoYDB8-=Chw$w9wARmI7%Z#@3t?oQwL3C}N#lziG=MuL;G
zQ2O~P-;dpcUbfp>#@a3xS8l-;A9Nma1&gf+aerwo+jQ3bLAM5F2u2PX=c_kg>#XGU
zNQz>T9}hiXL8*<CL;GHS$yRRHIGoo};pD6p{}$45)>Y9aq2TdXr=2?WBG}@C_6vQl
zI|L`E{>}6?`&}CCaDJ$blY_n=PKA>bYpKaRSjOlF=aBWn_~L`UKOcgVW0tP5=IvIN
zKse9T#>qk7d#A$5>1G}`d|fHiq2O4Wv9mOSvVJqZ`0R063KNg!JQbZ@FSIxn`!NI~
z2fa@F1P2%Qi>X$;-5l(-&Bt@x5F-bj&ry;c5ogE3nu|vQKbJ_0WH8|5<OS{2Vs0C{
zHgJEfI5kVNaf=YX_@Mv)MI=tn4u<3GIy7fD!}s`xI5}s+L*vQ~rLBR(fRppT-YXEq
z7a!p=ozl@>mKyjTKN2Gcoj(O-c_D9h)zJaR6es5gd7rkoY~BhOcW#UvbRL#cN^3BF
za=HNi^ax;!58AJ%!Ary5^9cvw_oK3La&nfGd**MRzXQMfbQB{8J>NKU-JCLR#MKr!
zsyI1U81I;H2k#pI4g*e(szAgglJOpkfB{?b*YE0?d-(CiS!Ut`Wqb`&5d7U=HbxFQ
z?l&kh%|iFnGy=yFC+E7-MB|WZLJV*OadL*t{NC@#TOS9U;Z4}$gZ9f~=<xK$aIW;I
zQ=UTWI-hH0<K!rBp&odq6LIx5xq26mjkkd#PL9i4OKYVSP5BwLT#3^j``-xS<XmdE
zv9a0V$n2+1o7rDtacr0mUwj4xs)IK?Q#w3N=}?`a9&VG3ld~}<plkN&Z6m!p_OZ`4
zNp_AHIq15f#G}6<wwZM0e(AmWHBw)U#W8Zwac^FG^WlEwZ_P83Mk>X^Gbxk2_~K(b
zrc^Z|6|B<Asj**}=2=TVPL8MR<s&l{m%KA}Yjk?;Di%75lcU{8lF|FXqwN7Rl||Wp
z^HOn~oa(0oos7bC!*E?p^5Bb4%bQ)wWqHE$=2`p~Zr^&EmyeUv*BdZ#ENW2AhpjD{
z>d2v{qc}O=kG~qWDAlMQaO-$`a9rq-I8KiIqT0FeEG25V-X}L=iw`=VMeNp<i~X=j
zKJ~Tl_M5Iu;c|=|bUuGR#k9jU*<$94@`Ganq)|CO7&)jvt6h$Ky*8t9Vnu71_g>W#
z3#u47s6X~DikTd<oEDoUb~@_qtzsa-$+@n1Zm%E7F6SwoGY+LAll_(4*y4=(L;ARO
z@Z_lF0YUBX>HGs9N>1bC7{_S{&#HBM@(fmYIVVOuP{qmd7co5DRJhYYSDdz+X3xcN
z5}X{T{s)5s4^vK*GOc3xxH55~k_%saDzdyPFGb!xZDSfC`SP%iz-gQuCSBGXu1ssA
zi8lsybB9i*t77D!=h$&VF-xw>*R$CjEIGz1-so{-<e=kTmh?F)?Op-BLs;_4FIC49
zdN}dLXO@MeaFnezLE_4>sMwlm-&CBOJ4eh<*(rz7z5S^EvNK&-#|kGWYn?8cPL}7I
zi|e*MxUy1rh8rh`iJks_HqUU{N&4Ki2Aui(dp6*Uj{t|lK<T!_Int#0>*NY+1ygZy
zPI)f4Zhoh8D?hBvcJ{ltl@&$~x}QgX4@4Xz2c19nnTJwnoGsa5pE<c6UwlrnREdz7
zIWPeyA17yrc)WDBc``F_j^gA9?xG6s*?P{o!l{=gKH1$v94Ch}?#rqV&4RALnOui2
zKIq>;=i}t`7vGjx=PA1ezPCDxlY@S5C61GWem^+LfiFJj_k;NuIq15Iem@wAk%L|r
z^exl^4fL!MeIwF2^WpD14RLZBL|tWGJYM$|I1D&BthAhuPf^a50;h!?Uz}?>$P^t#
zRdaz8iIek`!!@KQ^y38ObrsILZdUPzI60){mg7D_Ol<Hw(hN8`R02K>yVe|zf!~pC
zVZ#?69kZGlJ@X?ExY!?m>ANVB9*L8);@p<N>D59T4om9GJWtFWG{ngXC@md(zxly<
z@d-K~gZZmx8E|q=-%M^CNJzV8xkLBE#gBbjEo<?`2Yt^W5+?_J&%qEU2Yr8o0VfB2
zU!sK-UwqQps?HB@Y(Ee8i%6Ut^!K$4adK#i6=Dy2D@elqlmRCv%u~kgY)z8&{>aq#
zoLAz5Th?HU5BmJ2Z?gO3#~YCjzDHw{?U)^D;xTg2^*OYs)KE3`<5g33%_V_~ZaY(q
z9CRO*bi4A=FbBn9aZ6dj7lx{Zf*3idKjU&;6E%kqOIClD4xsbiAUw>1Ej}nGj=#8)
z=l!UVY`-8agZVb8Y@8eujzXjJVVYX}?lp8Ye#tS8I61|uyjT*`2d=;Kwj0aSbD9yv
z$;qIKFWDd@VAJNvkfh0T)n=F(TYS**(tY|;K_rD#_uG|0EsebnndKNc=sb*&E-gCh
z#djCx^J$D6^nJf@XRAZe^pu<3%Y=kZ?7ZA#ijjkk`yDpQn5}jEZJjPD^=7TNpRnQN
zba9W^w$(6iys>UHP2WSgpo0lpoY8)Xw$&`KKYYhG*4r8!!Tne*A1CL7?yGw|?)43&
zcU&S^Rb8|~FmllNtQjlUpc2$yBgDHP5NKf#r;U+Ajl5?*xnFayp~}%!hqWT3TtB{O
z#L7Yac{x?zL6)}4xBc^Fx{t{l2dFUmgK`eW_KTi5ex_|p-4F|d!n&$@Mr`ASa(ES0
zC+{)78j|gnQ{d|u{}zIgLxaS}W#WKMyTT=<7i;G7^E`HKjl{@7uhS1I8thH3n)$HK
zTVdp&f47yZIPx%;VbsU>h4J}8kKiBL7&&Ns^c40nCwem~c+$8|n(w~vMun3j(j>e0
zLUB{d*t?h><s<9a>KX8jSEi`!A(beWNBQH;9{N$aDj_&IG^yLmre!#53LIQ%a#wTO
zY2)Oe&!<#4IhpGpUB6{S<M`4jQT}cAk??wYeDPu2Vk@4Jm?K?aG8VISq_H#vCnuck
zrk&>i2VK8l9nX8w@i}droXWUlhEG%Pc_wLgw=;31U!uavLEq1;UyUz5=>9MSCug`T
zXL@}h%fJoZX}NfQH(hO<9OWhjokMoC>R;yE<yMU;)KFpM&?D<l(U$P2nR;VM;K<|T
z6pXaJbk?z@q^+?@Hi=NJaKy+#?-x^&H&%MMB^=S1e{?F%(@Ov=2mQUBuvVkO`BTnC
zz%j+>56W?p{ZP2`Fqw9C<xPnh;lTu~<Av^jj{Ckzh`D*O^mX78Fa6UGtqd6bLD$t<
zJ~gAN*dICr<l%dl7?Z+V=<v<w&17!O^@DBFJJt^HGFodzMdIWf3w*1n^6f^Dt?g_p
zgQ_%_Ax=(*ZwQ^Vq@o)CiXN%WMzK#AFmlj1i_5+HR$)>dq~4{r-6M47V8<$a@ws+s
z=NXr~y#=<Z;V*87E*^`=$U*mYS}yiWE%#@}Y&Lh_?J%O;aTFs5J!hK<{y|X`d%ag}
zZPv*M$^J4!j2!g(DpQYG=}<C|Bg;50JH5g}11ksJZ#?14=CyR%?ke(1;nU`TgjsHk
z{-7L%V@pgQ6KyoMZxKpY8p*vhNsDc~(CgIu`Gq~s%qI8XI_<&8S&OWPb=l?GK8c2N
zlY$vrT531RVvP^Ft}<-9{_S#Bx6EM6nIqHh_;gQWj1T&IAm1Ftg{rJ=8erY<!N_4m
z`sMK@*Ky-L2i|6-n2)1(9afiP<e>9V=4x_G<cgQ(KcW-#zUr*D#d=+!<DR`p;>N~L
zQ*%SGA%8$c!_g6=Kj`%yQ6w!QDSwNr>Q-mwrna(;;utw-eD>>AZdO?tW+a>2U#V31
z_10009CRL@usXFxA~^d5tj|^$ISj~nQPRhpoa)SKkT`nYKB~`F4{My!>-{06LaWo2
z849WK%f2rLs;04W&~ab=RLbx5+J|nh>{9IRoj9QHgRx&IM<U&n?*&KXHp<}6PxZ-y
zw@fi|(0=KCAAjNZde0N%T?;R{wGx7{a!`Mye~4M0QF%!Q_d$7#{-E=4_;$w}qe*@5
z^o>`qZ@>5FBf-c)pT90Us#&g<UU$lg{|JlXd{Nvm#&rz+J;nuI*ReAX&*lr)vkX5O
zzeI=ix<Ief=a-AGl==r6$Uja_qJP)11#7?1_*kbZ#E2e0<?}{pKwg>cvw1znexc*;
zKt06s!?Emx*a^D46C^8buyWA*GWy(<iqRi*KZZUxS>fbV=zr~N3{-b6@7;g@z>y&}
zZk(Lj$T=Tsk-(i&`UM#Y_s7_JXt3Q+(SD)N%c(dy=<~7_P7eCL12<02Ez-@B%}EvU
z?EAeK9~vfm^-$xBPs*2Tqy@2jx8zoLjwq|C$)w`spywM_I63MqUwmG74>Z+DG_R=c
z)E?o+$=SirlOPd7b}O+urcP#JTDOM^UwqK-tx|DvK6fz*`X!}Xo3nN#iawIuWQCIx
zzmj6LOncec!7mfm`aDx-xN&mcTio2I^{o7+^yh1|S2Tj#dsgC$&&I*Myt{R#KW<$y
zJ~<>ib0rlgXTOV&)1fy>-{>Q5nK01hhFRg{43r18i`EIrc9S}Dd6sM~;>O8A&;5E<
z;ERv2)L>4GtsxnQ;gOTID{f7u;^eem3|;w%oQg@eowAeeo7V;_j2!enc>lbIe0%S!
z7xwM$PsOZ5-Ni9-&~>#=NpEm&Tl1QU{!~tPF>{YeN__E|5d6w@%lS*5*R#zrA0&df
z^D%PJ`*N1W{6>l|BI+*|_E3!;4$APs$U*zH;Yhn@m&A9qZJ(l=cHi6FC6AGV`a_*O
z$}^r8_DT6zpYx734F?jOoTZh#bDIK!`Zhc5_IiExK~_Blwm75yY-1F)GBH1Omfu8a
zs%=m3wMd+tJ}m+J)8ovFv27|>qWI@FnPTLiac)n%5U-dvYR!8$-i_og7bP1;4%#nw
zx3@wzhMe1_OeZ(el=0l}A;%Y=<9pitI}iE!TZRmF3AoEdWaH%Uam3Ve+mr7&{B?-x
z%OkO=qc}O!Vy=U>WlCvlJ4}>ce%`|;kCB5u7f{UjMhU!HbIGN5=OZf8Rn}}6IcS_$
zYCYg|dY@ZxSfD(<Ud*PVhYVYs(e)=M?)npR%hdvz9BWu@HKeQaF>+9U80qM5?739A
zRCm1ohVB<92OpfA(KFPW+jj38VhB*Two4ZXRK>_a`{g$1;kqjMhkHoFaB82)oj?Yh
zoOG1}Hjj|=n?%$CiWrZ0koS;ci!&M@W#&Y&Z$sKSS*^4pRLO#~**H08>sNPFkGxo{
zDXs70-TtcTC{9l7y4sw}@!j7|b97#>JU|&IkCB7M`MBk(V^qp_hGCtj!pK3_AO0Xw
zhJ}r<SX)1F2F&dl^QtGo7H9POGT$j-)3Ew+&m^^~Z6`D9-fWB<)E}w!v12#L?Sdj7
zRqQZ{<lg6qlM~&|K^}C-<V?9byVhd!Mn6G}9Q3)eN1;-|BW;BFZFc9rdOoXa5{w*l
z9`<>btn?&Ja5*@1!2kLCv(fcSi%b9W4>>0KUrCg+G5*Y>cVdkuosQqLGvZ>?BXM&2
zxm;KI-#KhT{nDP*@rXl_DNfER&Et0|_MbXdESzUu8+loe8z<-aG^e>(bU(wfEg9=Y
z<>o1ee_)FbdS17^YQN9SX5p|K{Qgx%Ru9*AVC0~29&!r(FxYyLA|s(e$;_JCAQdM^
z>CQKjNw%)Np$;1_U8ufF=ZKMmUhnAlmGT%l==FuZ_rCBQTbxnO-W!Fx15CHLCM}L?
zi!o~TmE+`~&&xhIIq37dJWdY!Jh-rkFFy4x84QQyt|;);`(HV@)*`MPCufI@>O-rE
z!yQwjpSJtb+<f7Klhep#q+mI=gA(o+@;Eu4dh7zjtqaXn&t!zLY*Svh@C{#l(C_if
zadOb#ee%J{L4S`(9w$e~EkQy>=}Gm-C2j`}dCByJulV8<a{1;Lefkp;QJg*7jmwHR
zmgD50=Qch#Ij&T+gF2NGmvr=mL`=kJ?#tukpzkd&e8Cr=7xIs#gV~%I-}l^V%g#Jk
zRgRN`zPIdylY{<VlRQoi`X1530>1d5=d0y7IsJEht$MZZKH@jDJ>DC4uF3}|hc<pG
z_w&{GGx}~<IBW0acgW-9OzA4+(TU8p3Gs>V&T}c`UigeJKE0%IGxO^`Pjy9|lXBW5
z_P!h^C(PWggC$n;0n?I+$B15Os}D|&=*6B*mEtGQ30z1wzVf*KtUOLm#xAQzE3Ss$
z%9DBR#hb>LyD*O}KIpzTDdtJNo0nx`Lz{!+fzjHK7K|KppYT=cv~z&mHQl0HJc2I|
zmDoq(<n)Q%U+rXQAdno*^1yqSWxpX_PTpO0ThE>oUn&-?bHvVVWx&ZvFPS_QSKXNB
z_&Q(FUOu3|We!`M(fG*mzM8!mp8KSbW#jXx2Or-@;^dfVL}>dcOO(i5RGp?vo3=2-
z$vKg-!}Hy?1n%Mu24M=<LJSx%a?t&A7sJ=6^f0qgy?yl0l_Fmibj;$5kHsxA7LQd{
z^c;7y-paf^!4Qv=qq!k&@srKv8HGVXEj=y^M^l`fDdnp3x0WItjZSqJI>>oSvEk$_
z>^@f)RTQ@^?a=qx7cz%LJ7)03XXHUNOCm|=l&I&XyrtZr{CJ!kPhk>axhT6KBa5v{
zsbkx<O>uIxi<+}Gx?a(@7E6p(wizE|!^wF%zL&mwt&9BLf@qq^l4hZfX?*bsq~&P7
z$;51JW<f`>&W>?gJWdY!_nxLWIq1HH4JQZPZ*)xIix0Zrh{wr6_lKr9IhB^){`w)=
zA7K4q!^vs7*!$+BK99*iuCGaa@tM7TVb#k$w<#7C?`~XkChvSaMh?0jnsRq1P_#3r
z9cvz`oHRRh(F!LAeV+`{=y?HpkObwRP);lj`Jl9f3Xq2Sze>^bL^KWkMBCFQWN;G{
z{QFsj_if<)9Z+Zwc;E*p<gY^ffcL+k9Ma$?q=B=Xf<5>H3iTij?V<65@_#o)_e;<}
zG=I5%K|N5ghxnoSP>xlx#v7|0)^@=T{0D{gXE{aVh^Eo{a9uz?v=3>x4j}!r3Ve7T
z0R_KcydaG#{5=+`zyW{2Z&ZN~afCE#2Wiw_$p5YX-4P%*&mbS>7aAqVhjjwdV7FWv
zwL|UEa+tr6|92^@6W|{xv=8Nw{;j_w@H+y(Bk)&609}9ns&;;J|Fa_Sd*1wKjpy&)
z{Eoo?MBw*z{d*q#j==8-{EooCRs>*O2L0Fa?myofc;6PzvEX|NV&lO@BqYT|^8Z=q
zQAFJN%d;Vlpm6R73g_17IXBpYLOJR%oL>`Du!nLq4f(_r#(lZ(2f+^bf0e@g0fq1N
zK;d^H;CDhG&ggj~^IzrQFXF<ugQ^g?py+s^&6=Ybe^VOu3r+t`Zs2YPy&l1TV)GlF
zNB^w2!#oE+Vcx*H0sTM~YoOrzLa!sJzn|~{YyZIysQ;@Jet!bu0QWCgztDCzp&5j9
zDUp0uBKdf;|7;v!JwV&nBV?eu8Z{)OVgA6p0l!d%xS|-CAF%$S<;2p!CsvN;|ExV)
zAJWiIxIQ4C7$5F8U<V2uNQ1(>gEUq>jnxpbgLMnCmrH{ks62ciC?7$I^$*O^a<pBr
zTTY3^omf6G9#((A4jq5s!hD7_^otHMh$wK06#w$<Ez1yL9)hCgf7V}O@k86enqJNy
zC<oOhfcckcU^zdRD_;ixr;G8n|998>(;dYK_}PBJeF<wlxSnAiE$0?iF3Q1M59R!`
z(+0oD0T?H|I2bpq^?x@0YY1Ryhm(+obsrRK`#)=kuG455D-Y&1+JER5DD3;dj+hc_
z7dTK3Y2ZNqU!^dgK>w<Cw*6x8&+cn}aq~oRTaglC`(DJ1XcFcjY5@I*eJ8X_%pUAe
z4x~{(Ar12z?6B(3&R^&cC_E1nYY*&*mH%u$@K6N~vFCEI2Rl$=`B08kiNyi<pjdf7
zYloiC{A~Td+Wyb>AI>%4K0)k!2JHv2a{yxg5X(ookS2B=LpiF%{DJ<V_J4I6z6ZhD
z4l)0U#qDR;mtTGV!P>8%-S1$%4--4L!s^$5s~xfR6!u+M<FZ6BWFaWbM^LOBu!H+8
zC~zPRir$aWG}MFp6)3Um2-bH{@COv@dI<LaZu+z14*i4c6vhS8P!91%70Q2=0v{_6
z?sHh}!47LX(oo^I{!|2D{(wSdxPPPhP)<y-ju+HN`Oq$KAPx4AkFF1p4|e~m`tRZ=
z*7!kxP{msRx81)+1kmg0U&E_^UoYT#_*Fds9_X*){-<z$_PO<E`wjOgV$X{|%llRK
z$^;PTuj2mI9CRMT^TVHQ_g8WLtRH`OeQ`pAlE0{72?7WHULUY9Zeoz}7c2B@xn{81
zEw@g{APvEFk7WN&{+mRA*!3WU_>ayDG>w=OO+tG+2o}Vi^Wi=MN(_kC4`MuM4^^;-
zd`N@-?0F*8`?CuD2mM(d-g?Wmvl%f!(?~IiAe!-u(m#8@gZcT3n*Wc%@Db?=oU;)r
zCLuPz&~ZW2#CXfu{p|e+>_MU3$Ak}PK9pls|6jzx+8$Or*bjqZt+$-ra`Cbv06>8U
z`zA>Lx9ERbzw!15t%s(6)qMD?xLEzOA{c^Vt@qpRcLaV%;CBRmN8on^en;TvBcS*5
zRsOFU@Z1mje--{e63e~c^s~JGM^nF~2>e0yXW?+J1An&&&u#F00Q)d_?*a1B@3V=u
z3-85jB4PmV*AV-AM<UfQXU7pNL750?P|P4AhVcFn!~@RbAZ}_z>iy3C9f98w_#J`Y
z5%}ju0Ny{f#p#9zp&qRNC}z3)fje5^-z<%Op91$i$cOy`<U{x1JsnWU|ErW(JH*Bf
z^#l5Y_5<vQ<wH3r>Idwrh}DPv7$|UvDa4ytIoAB;+Jk)~RvunEhzqm_<ACy@9P){M
zp8@6nYHCVwD1s39tAsSHPq5Df{k!~!`AY2h2%bMsf7l5bSjS<x@AFg%yyfPl6Y2<&
z^m5;aK{aCigL14KtoIkRz2*A5p5O?K6ZnNHRzJ~t;167faQ(qL0}Abf9m;_;^atvJ
zLOE7HQNOU(gLc3VP{?2IexOM(gnmMOP~d=nkjARZwU4!*%Uw@FNI!`Ahqed(1ciFw
zHwPgD<^z<Y3crsAcEAG#duU$^GL}(TcXXGr11^{u!iQxPt*5YzJrvu(hh=oRzcWUw
zFV{ZmFIpecY=jRmuS21Lh+^f!ydZ*E_IHq#5Wk3Vu=<0pH^g|v^5O4ufCCEl&V&zW
zK9qyPeGwG$CkP*4orUX(4-5#p+&%#OM5_HG3FWX(fr5bsd?2DwpGYyua^-N|NUXjW
zu>vH2xptN-hxrBAo$%oo>2mEaSH4^vmaD&9c{-t=Fb_eY`?7=&uuj9gMz3pisIZI@
z+ebn*@E6(vh4SU@1IyKqC4k`i0`6a};1{uW9EcSl`Nxqonq00OuwTv&%3(gxKt+N=
z8lJmA!3<qbARkp|2hE4{pDhOtUWMl}SZ_gpmIwP9h#S<`gAW9S>kP^Mom?gY5MR^`
z%}3K<kLJTZ2o&s4g?SH(mO~oW8&JsqPgRHq=%4K;tV5uGmiMdcqxUJ`6U&G4-}*ZO
z|IQIW*G=dPv3w~1yOh}aLoEOA^6SsG1Mvk#d2ru?e*W3}4sf8IKf4b9yR3^4U({d7
z2ZgwxipC8s|JgLL_OOlz)CY|qY)JD6YDd`MekC{#=TT68l#pLRa2)o>@OxG8d<UvV
zu!C}9{e^w-a{FKK8<ZHY3>`3HhCi7P@qzPI=pTwf$DN*Fu-rH;_q>C)^LM4ucoXXf
zYWH{f_s?zz*4ux!AJ9JDaX|ZlUPfpd+5;ulF0p*5hgVT9v3ZG=5A}&D$^knxf4TH>
z=by{f|5fGaItAzG5La}(As-a{06S1PCxP=S;DS9`AM$_ezjp-CafbB-oo9cxm+1UL
z|KAU|-@-hD>l767L5cZ;mZNE6^|0oHpI{$G_yE@t+OK#pL=@#9#s5fx|LFPy?LmA%
z|51_f0Ucl12LVqJv4i~#oZG{>Fysdj>>=$+NW=FshY4xePlBBWAs^-!{CzBZFM;|A
zX{e7XtW)rPD%gX<_b@tyc2NO4@DtMD55x&=7xu*t1R&Hy?VJeZ5JzHmFuw3!nE|05
z@U|lDfPYZ#gV;kps=y_flYl><FrR=AY2c(FexMw9?f@S22gV0DP!0;`>+ro5jF%Ci
z0q_Ib1BLN{@q>I+g^&z*{()>5Pe`-C2ZGunX?X4dh36ko7*C`c<|M?4SOthHl*9E2
zX}G>XAs<~IpdO4j*b!4SPEa4(LHiB!ffx_+;hclmIK%Y=_Mpqf3GBc>Vrj@HrcfXL
zE(Yu%AJV@{A&xN4kVg5Nkqo$B6SGIm|Lc;(<`=Pi2oT<KxITdMSC7kbeu5t`PayrX
zy4-s4SN9YAMb|UP|Jn9|0}7l!t1upa)jIKK{li-yYn-s!p?)M0GGKpvh%lhres*9H
zF#2~JgGl+WPNMq`Vtm+-fZ7oZL7^U6j^2+U4f_{RTL2Ig(y)I4g?Xxh*h4vzO+swH
z^CyQ1ZRV%b==wBHAVB<n7T83n0Nh4G`k$>&34Wm3K*&e6o{*1MpAhPURuR&FmlB#=
zR?zhVT{mDH&k-i-ZURw?kOp10p`SE>`z|Q4>b?X&b|8Kcvxj`R-w;!<`&UtPT+sC2
z?WfUl1A{p9masw3g@7aF#FFfU8za{B2-am{JgoVIY4yL%;XVb=Q+5OkP*~?93Hjg;
z=>Gx|GN2x@c8S&dSId_rbYQvu{;T=@-|o-v@%qo40skrE`k&H|pPgm$KU?8X+GD-X
z{%kWaexN^F|DR<K-^0Q4BKQGmxL>2&Av6v3h-n_v|0w}&fdfsX0yAMlPArZ@^NAcV
z6chMx-~L3f6D4%al91LX*gYWxq?M4iBKT8J$Om;M<bz63|DOtagnFQ`?;&Ip6$l5M
zf5UT$8KDO3$HZVj2>Gxtb0wq?AT2;xkZL6GJqs6N5Bt9XLjEg)LOx>tPfz~jcAEs|
zJH!RPcY^rh?GTI~)W<sRU=Ir84+{C{_(48aB}~tMm}89_#OWUu2_Kg82g*U=|HX#%
zay+p6*>wi48&Ke&?ZLPMpIAT9dW2={AHTN^_2khnV9<($v@4+kC=oLf31W^DDzv~v
zCZwGa1um?6ppXyiBBY6FClNn35GugDhxrQY1Sl~snh*A{E`h@O1d7&!b74@le7Q7?
zAK1aXA*Mva0oDJZWY7UZ4h73UivE8;upznHgfx6#juc}~0vGmKbc7C=BMSgBo&GVu
z6$$nb4`>*;@O}&W{TA3Qr%(^v0fqnnWE}w@K~VU6>YrU-Z3y*+2@3szbpX!S2*o52
zf9NMDlrN`0Yrh;1%3=Jh2@6*&EMNo!V)Nw-p&X4Hyl1f-7oE@G&u{%5f!`7M9f98w
z_#J`Y5%?W}-x2s7f!`7M_l*EN-<A-bUm;ygNW=LfJTHPmkKy?Z(xB*bi8lcZ+Dk~o
z?`CF0!vG-Y1oFJIm2j{Hik@?zX~4lb@)1G?oIgN0v2-BPejKq51L$v3aN|01?f~&R
zO^7GzKez|=K_UNFDSEyN^9cB8xgDXvgrIP~4fdc-@ByP{5SdpPtN+6c;)*I5!2AIP
z|3SeH6#9!QTpwUZOkw^LD~Eiz9>6cqJ%kIH*nCFk1v*~9|Jm_?dg!>I{UPQT)F-C#
zo3mH?bUrh2aZlgMlJYI$G|A|bzE%q_t+(dhS>th1j1d;Ok<Lt=<3GNxV>+31gwe&*
zt4=~t;ko;Jcd`uYfCWh-|1ZghDx|*Ma3Cd(Ytr3E6C3%`DBrM;Z0`p@ub^9khT1EW
z1y2X`_)vVVp%Olw@tB^GucU`BgDLC0_WX@_(QMTgx2Hj5B2O1dzW7NneZE|8HyGZX
zeEvtJ?+Tu7nzEXlNXMXJ>-$FPub93yi>R;h?O7qWrYY6$su6c!VEDu8L_d}EK=Z1J
zJ+G_HCBNOT`<#AMuvKwX{|3Y2=7j1Lo79f=v<kVh=PovXf0cRP^F~0WXN6Uc{pT}w
zp+WYaF1_i{zGc5o#%<T5Mh>n3_ZQ)Fuj%#~Jed}dWjEJo_xo76Q1>F7u1|eVL0Zn-
zX<q+_(ew-Nd=<4K&9;PBH>Gxd4h*h$no?b|-S3x0(W+Fi^_kd14f=>X2WRem>dDfx
z60onOrTK7>=8B1;qsFPbWzz?@emXmLOQNjBCg4Wd>qG{}Cdudzi(y|^*$I1|JbL2b
z(O|V65AqO}1t;so2V*W4{p2E)Tw(T~OotB9XvXOay}rq(@WD>CA}VC7>JPhQB?l$5
zr%U(m3p}6o<6L3F&{BKm`T*riOXFc43GEA~bZ2XPyz3bC*SwH%nC#LL4;nHFTKhys
zM><edw6HCA(8Ows-;VVG0~BF#^W(!CNGdhw)z&aA=IswScfa+*W`3LRZzs-NUdeO(
zo(R>-d9_68S-*Y(miYRO7CZt$H@08S30u=}uZlNpr(}Z>gZ-#^n~=Ze2i-@ikL+x2
zZce=0e_|7Zq@@s(WzuyCj<=dtMq2{}<f!KY_dYJq-M5u*m;LrrR({z<?+jP|P?NPc
zT}Qt7JtvOsq2=Y~pdBAF&Kk*#TaUNJ)RyPzKGFI%)7jtLToUjuB&L46^6-gwL#6U=
ztA@73cK&#DSIv0qDc!^CGrGUfnm#`{eyKdqHs^zH=`kO=%q@{!Ws!+hde?U=yyP{K
zi#e@e;-;l@{;<$M=$kh}>-3w9dDqWBJ9Wm{!Hx6;b&ZSKHQwfD<7o$uotSy;`t<li
zReOOM(OK58XCut5hc^t9u5oYMyKi9Y+nM^MSjiWhx&8GeUjlojWHlI1wvl(T-rTK4
zUt`o={F%L@&)6$lcAa;MsEAg346|9$gN4@(39>gPnD>l-x}3%R`m+H44xby2o?<z7
zTf**SeNenF8Rr=w?eg|sWw6wlZH?|6*Ba(zEO_4pTq{f3RmK!W;nVqG-vRedafaj{
zyp4qmKC5C^yROWlObopLj>@8#%;NZUcipdJ!n91<=PBr0?l1H^ci(QmC%`5^Pdz`L
z8>yMUcxLC0z!v+U%Z#ivDIB}9HF<qVjR$yY16);3kBR46h+OHNm5BeWRYjBSZ^S1k
zeA%XUx81Qb4;Zv3=PII8g*6#2>^httsQ8g))ttFt`)kdrmC|cRce!%<I|#KM{Or<k
zWE20@qlNXSzvoJaiju_c*e0*NS(eSM``gsv9VUxjT{h}gO3yuYxioY?X_%|Hd>DUo
zbhkfkp^B>ZVUN3%v}VcFLF7+jNDqf=`r6vE1ZT*erHkIeqaDPNc~j1svr^|hr|3uh
z02*GKq+x-2Q-u{|n{@LQ?~dw^B}F{=^8M5E+5tt49N9CYt*t>C?J+(_O4}MDKV6Xe
zY?!p+>ag_Hj?cqeKblr>ekf0{o46_KaaHoiQfIS~!S~vSZK}6T>XpkJt7{dfL>9h`
zZI()EG}4$m7~y1}<kVVU%$HmHu*ESm?S*B0M%vBQBGQGu0fmN{$t<6gS6zB0qf%&k
zOR}J1R8U^*L>Bu)lWBeN3MFr?tHV;Sd)dXh-n5>H^LX62Ab+)H%i*}aT4NJdYdQG7
z)5>YY759X`nTVqPxXLE2LAKHAQQ`c>%U2l+f`WGzZ>X?+>6`va#P@Z}vnUmnRc@;p
z)$V`d=bV~0T%^?8ZCW_Tno9Y{q%htclPJ!R@`IO*depYp@rYt;N+<h+IK6Y%HL0uk
zd>;Jx8XV%i)thIw*OEcq>(TeZZil$$tSRdoJEYswI_)N=8_dp29onfpXA~W(Ls_u;
zWN1sopmKK6Dn4V5T=_71;SX#zbsmlG6L#GmJCs82-)b+R&{Wu&Ik|=<($V{~qtZr=
zCl`A5k$xSHH+`hVC!o5QgEFLr-s4BW53QkzJMMQix=in@3(!oL@`xR_bc)<0{FTko
z&@Y5kfr;HlvUU2x>Qzmi7RkGsSu$%xN+{|^ECQRIZ(DMe-w9Zk<lz*p9u{_G{vh|L
zq>I<LTE{v2z1@l<2WJYRc@C#drrX#LT%PP;j}EewNqJWpVP9zF7_+DFPEha#R-=m>
zVx4}JvW8u%sH2?`ud494&$9F0_uBlG^Hvw4dzoCK_&4m^s{FOn|2}OyeZ;{peFC)?
zB6}|C4yDgNdV9?wCWq1HO_br$W}bDe3g%p`<O=;s$u1gHK_#tc-b(k-SiP>cKk)gb
zbysWkWLC7iWQ0lb$1`qgGu=$yZIj;FDb#wbF4U$bx{J{*Q7z}rrs|zOG7_Z2$!lJ4
z@~oZr=gGduJ9*raZpF3dC#vt9U}?_lJaK!ohW?RRpYZ!~KkDC^sPmc%wRLekyE-VM
zr?~1!&bhF;5{eMrC>B1uf#z-FCuonQZeZt3=}Kw1nlRBuzgF0NZJDf7B&Wd@ulh>4
z^I=6XeB9R~gLiWA)J{q&4^hZHukzy6%Q>v|ys+Hf*6#psNzlH|lD2TB-JGgUi#jy#
zKUxKTrtP}<+<9%{jL(#B@0RL>H}7}!%{A43dn`33z@YbHV0Dv-&_-qVfvc;1+WqfN
zY)UF>dY5e9@Ihouz}QtFeD%6>24jPb3xzpex$|6+Dx7Yu>mK|uM?V<5?9KRNj(*cp
zrE*cxtz~u#H9z6)chHNBj?-o1ex}?92i>#{KZfry*LsqWG}6L4@7v&7D595ftoYJ^
zsmQcQS*x35EtPYuabcg4sy<WmJIY2H|ALdN4qB;%omSqh-XM4MbSLxeeIJ90uF4A!
zwkQqLy^MSR!eCIk?{4tp9I3aaa{U)dNcd!flm)5Rww>k{eyY2pFfK;Q^FrpQ)8S%H
zp*r6MZ&Bypn0=mlxvTcZ1&*h2&K$bDcBjhTUHYV{RKeq=v~n@aCi)T|dBc@rhL>9_
zE$D6=^pCbCE>XS}RoEF;c(z7iOJ+M~bB7+UxpUT$O<ajQv-R1>?rT|+FIDq>y7A-V
z-iVY-mN{nOpT(*cr#z_Kauu9%g`9`$v(MOiYGqC99@m|2@iFJz@J;T~MDz5`Pd)r$
zFSl2R%6w>5?iIPi8xr9<zH{ob$P+7zEkmppJvTPrKXxXy=&oR6BmJxt<AaaoRuPvD
z>ndc;9MZ^6^$xzFc&~ZhY5!@h)P^U*E6GT7Q}QlkhP-d&Us)#b+Hrex9OpJlJ!9c3
zsWQ7-=o39e?G#D*Yu?9R(c+1XWp3~}dPg>%)%f17t66$o-JXe~l&1MFA6{|aQPds#
z(oo~$Zb^|?^375S1!`iSYI%5#X;=<1eM?XpdNwG(Deu@VPRaKj$GqQC%RJFOd_Jg8
zFzbZ9e&EU$*<^CRmL!XwE7#Q()13C~YChO>*Wz`6_F$$_H`#|w4dy+vR4OY(jLmG)
z-`!<W_Vdc`reIX^d+RIhTz1?3$+r3NYeyG;EKH71RnTSx-}o%}EbD-WqWzC+ji<8w
z3?7qMUgJoTy_3cMNcYuE?|AA|Um>}bX%8~{(tUOG6203WnToZiaeNH-R7w|-+1szb
z-OXb1jk7F8-21q9bZwi4B~l;i(2Vh)eIoK)r>ujVl4nUTV#Q}tpU%99D*YPqRl&9E
zHjVEYj@p&FD?~eXLtVpD^R*>MqNC-NCucLe7|5!MNd+1Ump&DxMbav0n=cs4CBE`D
zy2#>VzLI9Ovg5w3je8ANUtSTh;mYiFdw0^clirsOO}b@EX}<}K{3tA4m#V0eVq)s`
zbmL>4VX792@A~W$4^BtLG)av-)v7I96B1`d?M^a$KuWOsa%TCp{Cz>eu2=oq3oK1?
z1w1rQNX<Nu)G|mgO8TUHvOUZ+oBmyTcqt##wm147O0|=R6T7DZ7B&jd+Ic&kln}M+
z`ruGOM}NzYviZcJMr9tx827KAoLpY-?c+URw6x;z)%EX`RD3!w(oeh33(p826K#I_
ztVu?DMpQ>i=8~MWzVH^IExKDSJ>R7#`c$sr>GLKjY2BwyJ1?BqWs^^+BPY4svu1c^
z^%wF#Zcwo<Zh!1ro|L$;2zYUe#j%)|MwJBV=F15P$Wu-Cw0Sw+HBfnyPu9QDI+0)V
zigVYe9|7G5Rz0_7a8+AV@A>d)-oQ=W5b}DR&HJeNH)a*|_!}3M@7Zrvn^}00>{^eP
zezn_isVh6FGLz;U=y%WAZ8=4zcD-kcwMhLs`2!&XGl?}})@H5MN99JwV?&KM9T)T2
zH?glST0O%f>bSA5Z=lh*QwF7Q+eY4dxmP3aj5|f_W8{+9F8uOa=^nk7kCC~Geo9Yn
z-!A%o&cRHhe^yP$?54HSix+IER&I*?_jIQ94!Bhs+);|jekG;m@K8WkJTXG;71fPv
zpBBGFl!<*Apgh_{IaYhWLp*KLaPt0z)Q3eH2Gc1wNV$((n-P3VBCz%3(BqMg@}>Sm
z?_Am?xIbOmq(@aMuRU;5dcn_gy#MV<y*kHlXEZJ-`<D$?b(o*!?WS!L&S|lA@G)Iu
ze?3IuaBk`YtFG>M8%FF+SKZ#GTKDe$mo|m88V&xkm4}KMeVs4WJ!=@Im*RAmyG_mb
zcGtb@X8m>ZU51aDL(?fEUxx}03a!q~i8=Y+^Q1zu!jZ4ao(<#-$^%OLjCbBtPx<=y
z>hJjwy0BGpLwxJ!taoje6Gh(Q*-P=V5lc^bzO1|G=b_Jh@5W;3NEluGtLv5I5B76K
zAJi7h;kvcv)gOaj8~awjUz{QMkHH`6*zc+?dRI8ziIlpWebWeq8uPuvtIP%lA8!bk
z7)hUwT+_f2p`7yR^JDU*Xu-puG-)q{X&85uot<MiU?J8M63BGqb<2L)oX5{LM>UdA
znavb#7!tmq6qO-HvG&^r@BU-)>r?D3GA$pEZVkU|;2+iT<DvOBC9i<dB*mldbuYF&
zQ9s%6a!+Vb;ogP?8yR-dT1%RIo~b=?CHodH2Mv)N3*8~Rp0e$5^Bb{v3XdC<3@2(5
zZ>g!?t)ip8Gb>^ob2i;j=#0p-vN+9>*Y2|&s<-9>B5rsad?<f%yp6GseO94PsI%Cq
zg*)ic&I(nwvAuCdK?$}64MMaY*H6l>%nX=l9QmYqY<|So{8HWC=M(1+`8;P%o~DQk
zm6@2TJSZ&IE!OGoGc>pLlitnpa|;hF<<38ldiEnnR!(cT+y1B^|HPdPAB3a1jpv^^
za<<8@X;s)7%=PNnj<azlVd-l}cE5EOKNzseooj9G_p(u&IB$mYiL{dK>zt=a+Z7c^
z`cr8vFV8lt4^uBliaJ2SHP@E2?Wv`#X5h))G%Y-jSjLCw)`l4rw7)S`d1>)^gIw#k
z4R*C`MTt=@D*8T?5yBVy$G%KDy(d{!^UnAJMdAOfh?g2^&WbZ=j&QMa9lNGl#j1Yz
zUiQr@T{7K_=me@C{xY6h4wNSZO1X=zoN)3>Bh_T;=0DZEdsAcfS&E@;>yDf^-*uTs
zljnT#CKum=F!x6rubk(~_v~Nc`0WLAqpR>{lRdYrZf=Ysr5AWYeqobWX-QN?bOV#s
zg{gt7bqC*2|B!i`r*kiD{AHu$C2>}!)zf|1Dt9;jpc>OIW13Melc_h=rg3Xxa=Tws
z<xg6E@<H2GijqIPE{WJhdq$NZc!X>GtG}_5cDboX{Y$IDozyo=6@|ZidReQ!gGJ+j
zrNjFgsppm3Y{_dhuAOsd(@7Y}BsGcHa^3&B^!b}3k>9)=>c!_P`^zjfM_4q2hNNGF
z-`D0T6+F2%TX+>mtxSEcao386JqIHj1(SGO!WZig)$FGA@w7=>eVy{WLEp}b>D0{l
zxUP)7AJwfa)^yZ;NoyH>sY3H%>q!A=UZIkv4l0SjBN-l96W{A<aw^vM{;`94b>;2x
zKNiv8EVqFe=i}__9UW<Roo<SJ|B=dqe}#o)bh7%jhtVJT&XLH{jTg(Q)qflNRuXLz
zJZ0sfvcAEviTTi1yRKmMBh<Hj(nF3mFKBxmP*v_Kana>eWr^RzbR_5+Wl^KAuS=~;
zRVi&VPyMmS3AS(dmhyP;C{%rkpH(YpdihTG;ZuqVt9v>^JM}fze5XG3_Ke>d5}jwq
zzs|;Tn;e^6Of#K5G{F>b@XIh0L$f677q#hF(Zvg26t)y~am*VGjV)Teu}R$B;ke4*
zr#~;CI_R{@u(~q!`{b%e4NgUc-_lGg1D)C5B{X!zGWQ)$eDSPUGixluN4jcWX+^PU
z0$*ud-8o%tdCP%ZDa%~;^_rZ+y{D8%`74}DW#3+={IJ@6du2;gy7FYbZIz<(tNqr#
zCZu`78@%!|B6lZ8$LU6UugD#FA*muEmhHp8YL9vB@tDygPS=d}?BdloD6|CTRaKww
zdh5M{gwo(s0UvqM+@(2({$|_#+SN}QE%z-M53TKb%SC^1x`EDzv0vkp^U<hKo*IKK
z-e!-#HEFLHl)pGHRxHt#ASuQ7k^B1dnA75<!M+w1-OUdav{JTdy_!+KV#)4!vE}}N
z@<N>V=cTkq&)t$jZL37df85t&+OtMpMWn(oj?-EvFD-l@jsM^+5li7VLveYZqwl1}
z<^}Dgp50%Y#PQ<Fynco2jRTjZ{W7T6$yCYh6PIt6-50S%d7|~k`I4&|{!2~AiaTTW
zv^sVqWjoTVb~%;sE7DZ(-qETri*tUMx#K)-yqNY5o{?LeTNxWKhH3Aay}Qk5I)SPu
zL@1V)%X09|-h&SmMJDd=>>5r<xAu9ccWI+ScqTVLwW!p-XJg%80}d3A^Tq|22IkQ;
zjTwe}s)YKN>9g2}F|j1J&mM{OJ|6p!;RR(v9BtRz@=$}Y3)6ji{v7ozhaQxux66!Z
zN0!lb`rCGRnbI^IFS6dg|G@W0Bo{q6*(1)7J>vM|F!I2W6N!4v58nsyY0YKu-zafu
z-KJ1HG8065EL?-4dgJ*YU)QqkHkv;wCSmX>v;ADcgF{{pLlp9_O%9nn|2z`oe))j?
zp%Le_?uT=yt{s@?+`#KkyGw<4?9@m89IkEq?fcU*%*rl|9eUaKZD;hB3}4?~pFz_P
zT#REYzw4-c4s}}^+J8{_VCn95zhj(!W)lu}+qMV}UuyqW@I9DG=4ur=wNBrO9EbN0
zYcshgZa>-0+5V`k&{0#(R{EMjSmb?{?vv|l0<Ueg+i=Kj|81kwu}Nm3dQwbGD{pJ9
zmurkJzAGxT{{8hUQun90)Z`kOCACAe77s-`-~L!;Y1VMfGWW0%Z~w^x?hEa->5d;n
zFDSl_rE->VyZwW=%w@PvV#syS>A|&Aqt6#BpTC!WkUDt2QSE&YnPBa4;rY&>-A~89
z-biip4$kN+QfZV@Te^98?WxG9%thIf^u8l^^}h!0c_8-3`M|f$Q?C16WW8@?DLt(h
zzqmfPc{cHEdMf9p%*dr;<AEO8yVv8!sluLLok(tqaUbr!J|MesAX9I}OV9Pm>z^JS
z3*zgj_mO@1rvA}_bD59S#=Pyx3)aTWFK<P64wQ79?KSJWVzG~+j8eVU$dRf2p^m8w
z{|oL-yqBt<W?%Gvz}LwpzLWoC;;sUg(oW%=_jay>Cl2tX7x-`lk(UkHT`_Te;yKK7
z>*CQ^B_oqtJBIqZmmZ!p>wc$j!=$6M!1PeNudmLR9Ea5Ht5)BqsMH#onmQxM*Q%PU
zQr0|d@YO7|L4qxVbdcv<4;#aJ_JV@l>};FwRUNr^=XziQo462TVOj!P@u{;GFU$D~
z%-CejwiouAu_@iG%3syUebnp3IrT1`4`W)jOUi6#!>M<fYdT-@56j4G>sSoF%6G_T
z%*S*+Yr>}$F#=bWUfEqYNFB{jRn%L1b$j9>y9Rw}k)U3YzCa}Hc<&A)ijQ6F!(~VK
z={%y7l^oqJwB&z|%?hFN?r?9hZmho)e&kZGWLbHsLb0@XI+fnDeax%kE#1$4pCvoH
zNnpF|?Ui9ySBYvmXsJnCs}!*KI=ROlDxZjJDLn6#^5i^=^=97<T(ht2M_C8sS95M$
zukL9wL$$&n??N_T_P)6A+AtF19_t#Dl@@!1wfB^&-DN(#F(FyBBZO==UTEV!>z++M
zO}92WmfEBj)om%7easNeploJ$t}d9R&yqR9mFL|#`Qx@{FXYpCGZgHsxo~VKhqd`J
zL&`RL3XW#x(yqrmwi&*AS}v*ia|bd|pR3yuBbcUhoSs&G59N13hmS%NG>!+>RmTYR
z_J)Lq3+$CYC78Oq=bq5H%}<oc3_P6m6i$&<RXi)Irsj)Xx2{#{;rN7_O10XxwTl#c
zo?f*)8sQ&jGwNIWnZv-+S;VcJ*WT8;@P%*C6wj)-PhsL@K3&m=xL>hbPmPeD97tpp
z(N{km<H5T<$n0Wc#rxUCDCN9}52VyH2UssjHA!F0TNDa$U<h-!rt^!@zRYzvr&Q(h
zOZlVSi7a+9!b!qK6vr<Km9l6veURXbq86DI_NM!y{$0(|t~9aYKqdF7@;6LmQ`CwS
zw5+fBG&aqd6)S%mvg;irU4O;!Y2jOA$!CXz`lW7#IfYO}zGR_gr3kLN(z&)}Y|4pR
z<d}ce>SGT{3)4=HmzTtkEz#V$W_#k}TtJLTt>G8G@4=d`JiLc8D$WJf6)?&s30ID8
za@rzN@ICSn@8-aK)BPFR3!c=hNfya;cdROHW|-eKy%R~P9pLo*($|()J9@CiU|Q0W
zmHx}N0E>>=BlBa^&we~u(8zmv=UyM1(e<c|=Oq4(1`GLZfzOye?zoiZ&bgkK!A{os
z#WTg6b3z#k(ZbrRHx>9;yPQnh)=_9~73#LCoh&qfMEI<Q=+PR}gSmxg?up!`FEzJt
z4UZh8oR83SviY<!Kfu{pA<f>vpYn?Gby>=Frm0W$b1rAzsd|6s-JsPBZIqOSxJ%t}
zU8|c$PHy>(wc5T0PNm^N!n=DjW25X083be~>uly$<wqwr+DQ0CZK)3Y8gO}~Rqn?@
z6|1(}g(a)#?5f9$^W)j9s_RBh=bMIU=$783+VHAyYNv+jlc61}Mh4P_R$J;@*AKCL
z6Dly@WBs_gVe{oEfg&*;i&7n{T-(Pv4MAREE{-X}1$&OY8l+?z-x=&BVyUfQBHCwj
zEV?XgM^xw`cK)L$Opa_af2O8aR%7g-yOKIx!(Wb-p1Xq~>x~G1LQ6n)(}{%oD4`}6
z_9JDkL5UBVdMCTTz6#vzo^vws%HGbM-wX1-I|h2+`{<;o6jMB~YdZC0mczw%JvP$K
z9}JC2;xn=>p6=ObHJ$D%bWt;`pl43fOoSne=c9dLydB$W%XN{pefylR`?xyOKJ!Q}
z=d@1B3GZTk5bo@=!|CjfyB9yVg%ztXT=4QyKT~TUSKn)t7a-(8BImoG^YSf)upcUF
zG`ce<{C%H|UoBC3HaE4d(|gw@%@11`K1c*D3hMQ>@tb|Cps>Ci)mpW7WA8n2&$W}6
zHthG}Z8~m6KJvZYQF%)CEy;cNlHDqXZ=J{u*tX^x&8%=!BRAnlTyI{@tZu#IxL{sg
z*Ev3ei|U3K=?-Sys4W;y*uL^b1xK6#ndr(O2O0i@6ncqLxlZd(h4zvAQy7>n8D}+2
zZy9I#u0SocL2<Y{Amzi->|nt9T^D2O-P=7DYZ8qE_L#9B*giJJeNW5f(4&xSeh-t*
z$McddDVHl8h5C-FsnIp8x+&{QX381K&bDsixUUSwdx5m)Vr1m{3xf?q1zTjeQv{V-
z++~?|$(S`|shNd!F`TMzUbI+SC=w?g7x%3<RoP(JUAo$(IYB7&0Gk(E21E1W;KkKO
zW@-Zd7p9^~=<P%9OGbQh=*fv8d3N!^*RzS6FTB;+rdOasrS7H6`p_U+>5nMwpNu)T
zzWvBrzI&0~{NuLP_wx!XOP}86xKX-~wR&6JHea>53hh@H3eWu@2@@{WJ2j>8gCzOr
z%Ik_UX<}lJvy{!gWp~8A6ty!ubMVyV8=d-cp?i<$GZp4Hj~INd;1|8~s{P(wAEyI0
zSBme=>Fmn+;hk3WhDAXl@9XQU!-Z|5jao~EUIXOYXHFHV?&^!^(|Y1^S0(;2S8s~p
z0keLcA;yOAPQO_vHFImf+ZW#{@d=aYoH%Gnr^}tK9)Ey#18KW`$CXB(Y8n#j5<1rG
zjb^smrLROeqf1&>OeC)kwsN?4a8C~@4dbigFuB~`3j_O#On3%1UP!&Wv(YevBbLqZ
zS%FqRX(*}cmW&vuqba8uipDp7Td!oW*&?rKgpcfeMK`bU(8eSwt_r!7dM1tk4?94_
zzho`X7Eptes%&Yga5M$*u<j;O!<1nmKwZn^fys~%p!G%^H7Gd%rP2A|LCFCqj3-N|
zVR;5D=jim|A$kV#*@O8uH6$+rKhyGz5p_n=vB1$W$CKF$kh|>99jYODl}B=PzVUFp
zDQqe!_x0>>8eCNykaoGIQh6wu6q)GpDwSS(VtaX#M%4=x+O8XJU#e2RgJ#2`{gn;&
zj8ddL>@!N%AW>PYm`be6-d~sLxk0cI$HT?F@#ubE+16*rD!z_9<C%EIPg2zb2M&E%
z#O^H-lS%Pi2eviU*v*z^Sx#1`SAS0lR=G88lys%Y+9-AuXGLCRf2aRQ^i{jc>UM+8
zD2Qq%HHLE%`0K)A5-xj9qsCpN|HNI_t0)&S0$#h*#<hGs&aABIyr0I(65V!%_nS8w
z@m!azde{}1a-4TkO(C?r{Y6_kjYq>vt>xH=tXcF*=EgXBZC{9<z0p}2&N9dcEW;$P
zabix2AEJeH)%MX#oZi*$t0Cg<B*iAZW5M_61rNi~df&FM%`#&`R@3qzC{Ltn)%6H?
z@t2jwUb@MOB!$IV@5rT|VC8Ume{t=*psm!(n?m@<we9R(I<3n0trlN;t;EjCWGC%=
zQ4kO>qxYJXecN*Ik<uyi$catp*Bff%Urs-b^28&l8HFA(zZXBo+SHj$7)QV8VMnbG
za^XC)j9pZJkes)WC#$-R>Rm*~i0bYCjvI4tF7>n~P>&d&mP`FWxs!6K$8Fxvnl+pL
z!YPbt?T6cU8V-)f^>_Z3cBeasf{43CIqW1?FS^mHFTUGJ{ZNkY$Z|8ucRF@8w>=wu
zM*v#yE}WAjEuG8BkXR&1qU4%<SQxl_S*P}ENfL4vxOqxsLPF~iyU~UB*vgjvXXhwu
z@AkuY-3hzFoYU;)MsjEr$zi|94QYV<v8lmkv|nZ`e8h6-OEUhJ#cceiXgTk*-Rj}H
z(>R>t45H-sQH6sh+cFjXP`-n}Uy#gSlfk#mhxZlaE~@)r)2*Ls`PbMktwnw4V#M(j
zYdOrc=R+h#Ye4^PL1r)3J#{f;1G{m)b){Gq>-LHuAEmqMae04>%~kJ}{O?zzXK%)6
zCb6e4(<gEJg1&5ikdn+vV>he|DfVd#DVlzfMC)ns3pb0B!+OeaQT);=FBA3=#@Y{d
zUFDLGLEpz<I!@gvIeCh3d`$9``F~dc2v^UI1I872+TERPlcGox$K$?{C_eDAwVk`Z
z*!KFSd-i(w4S`zP^e8xh{V<<?3)Inq5(>zy%DtF~30uYgkE|@nqW)0s*Sp!<b3AZo
z$t0eyx=){-KPLB`SGN~`23BXc4;IPZOW5*mmW&6k)p_{!&Me_?ja+-@B`=os!2f?_
z>n#hC;|KjD{LX^GB;15ScX~HV4*w?c_nX`CAAi38d;9p!wHIN;Y(HVqAc;IbiHD1D
zvtf(G>VApB?H&KXOTy@&Za;W_H2&s}tygzCbyoZfZo295x5w6R?#NquJN{PO+j_g+
zy|+7T*-y8OPn*srv$y*Lyq6>qf7Scbb#C}ef4)x`-)%37nY(3)7rUM5lz;Ib?jcY^
za)BC5KN1!!Wf2;%i;tYUAPI#q{2%OB+h%{LZua9=)xoig!QtS1&$j(9!A-P2zH^95
ze-duD-n6$1cOCv_na&B;zRr67h3EKIsU?T5Wj{pz8~;1)WB2<*C>_^cdWqNn;<L^2
z_>KUq*oY(l*l|av9&87^(Na_g4mB5B%Bb=_;^g`WCFIeX1uXIxvDN+O;njl|d0X^I
zPbuWD)m?`B`G&dtFvFIXbDRA&P5(HtJ1M(6_ZHtl@j-Ih96o5C8`}-|+;6@s3&mYI
zoa>H=-Q?4L`rI+}-rAJT8G8}abLeh_*yD-Z<7q6=b^jAlMI#lsQFizxi<lKuR%gay
z{`ozxpon5>ti+lF4uAI|-wUWVHT&4{rp|)+ySLdh!kAs_c&_0o`4TSqp>bb0fzl$j
zr~E&nd>Y3F%>jqsV)hg<s#$4Z(9#05f9yWAJI=YZw0`qfEb+JOmaV9>>Ky{Mgv~17
zjC36C1M%e9yIC%2!T#@sMeHGBOMk(?Of<HeW2%l$Ig1?BwIbyxqcnS+<yDdOd;!)V
z?3?Pq*t!@P8z@LyacVsGx8nSpwZEy;0SvR=v%<Uae%Abo)4TD$XNaB1#mje6ebn@R
zK=s>3`=K`T*DcQc+2SQwTMT{r1M!QS{R;mKU+FEq_JOO^wGLB~JeFHONH=od{p1B#
zw7<(Hcp)@$SER99Oi2!|*~;ah!YEvtwlA)l!-lU)1}JP-Wl+O~l5h%2m_b8GGjWaq
zJ$Nc|fDtT}g9@X39t1U%btHkpsU(SZ@={U<YtY=l0k<iY#Go3nTnw-I%5}5)5?w`8
zdSnAzce{tm4Pj;wKNS_^Ad|674mTakl)+L(I&X^Gh&3dk8d62lP8Bt2fi_>+d@_DZ
z)>nsY)EerbF+b0U<43qk3o@QpweSvgrLtg+mb+Yu+iFT;P|a2@mKx8|MWD)~a+Usy
zrviTSK$b@pN*gau0F?xn34Vqv$U)|KnH=8HsY)5_041N3uyb<~R>u#L(A6ypnme^b
zp)yEK6zV{xsFwDBeQH4Ut(uzVelhTam__=633-xGR0KR(T({BTo;B*~0(JfpD<10p
z*4EX&zfirjY&Kd`h*gEbV_Yc=bW*9I2zYcVpP#oc=jX9nR#h0hWh;fjTeecMzt}KO
zvn2R2LS}{4bd*q+hR>#IX|PbsZM>MhRb3G(unLM|Jf9Edp)$46F5=@WKUiPA&tEX9
z42njpN!%R|X3^r&v*t^;|6?B}%;6)p?0fO(DSXOaoZmX$(ho+LGk}mo6nq1N+zpom
z(MSbOv<r|!luv@w!_3W((gYNy|L7q~r@3fimQ51TBtFlF(Bmsy5v7MHzoIgb_`A)5
zmJHO%1+{#{FvuIV$-qjgZhEnm*Rp^?jV&dQe!oaJ6ieQrEOrGyes8heIXp!Y-`h-o
zblDHS9SBISx;057RExtxA#0MtR5--))Fh3(5;aPcD>{v{2=%2=8fhtMoT#j7G!Azz
z5RIbb{0+uggu2uyjl2XMN=s0!Ow#E$lc6dpf@xqCr(0-n$?EW7v1HWGB`LX$MoeB^
zw+vNJZ$Z7<CjDDB->=hGP!!FoX?T>{rL-mlBY|jCM8l)Bs-O{Ynw8H;AWdp#1e7*~
zGZGF!)r>?|yJSY-XjU&Hfix+W5m4Gy%2+^c%4B$^_BAplQ{w^|6RL4_j0)AfG)BN`
zQ5RpK8KIuwYpp7hK7{Sp^IkI3d}h`HM%|MFtC{_v*iI$(SBP@}DD$mqsAW%&hf3Ki
z&l!WGtS&kzP=claHf_yw9|ZA~Lax?&wiX;aNCq2X2hD3U`v9Nq4fo><i9XO_AKoHy
zWB(_!hST)*BY%0~?rm5AM+}qsI*DQPT_ZU{me-+o8!tUpZAmUr_7}VrSbviJpS?ai
zMOuNVxQ{i_R2Yp-QkV*df_+#MO%128E+Q3Euuhh0|F13@b*ryVqS~%rop2QfUR@~V
zi&E-msrC))qN!sM*2*Nk@N6<vbxq3Jv5Msy4K78Ww0<sCOSCRBW%qMkpjyuC<Kn|#
zkBb_gs_L)8BFC*P<0Ck<bDd3)?^N@OXwC2O!{s6qvR~CXLB2x0PLc6k!BeF>)$|nk
z@>M=n#w&F{RorYOKoRb;9;e7xsL(~oc6af?Qs!%Rg5i``@uWe8x}G#?uF@A-Tim^e
zKq}V$6r)-g4Zw$Up*T};u{L70Ya3#cw<%b)k=qzuskfUJ6_s#RI>3$5DVxI05$f^e
zG-s=_j+>)Xb(5PVtZ6Ve3tQ?rH;1Oj5!Rfo%9(DCPOnR?1*58e-56#)OFIEfZBD<I
zoKV(ZbWSxdyg5=udprc-S`koO23`B{=v5Ijw*tC$&OkMsCxduZCjujj70K)is$%fK
zaNblcbA^?AwN=`!5cL!~tq}G0j5eqSPK7YI+RljY#=BEPWA(f7PG$m}f;Io0REIRW
z6Hwi>;ZA&*@4R*V;veR_tTtS8_Y{24>Yn=1!8&Cf^iSNbsAeRCp=tEQ2Q->i&sxBu
zYX2Yse6prb6DTA5iI?T4VL0F5DeZpaZ|>B|<lTAr0fbPV+FB6Q@>vH;jU?8KQ<=GH
zIOyw}^#b;;Z*jpP+wPK2H;ml$^tADV^+Ee?_9oL7w!TTfG1v^B|25zLx3m1o8(<fO
z3wP@+qOfZ}?!4f&>rQ_yI}&%L4Qa>xi)z1haaApSCm!$J(@K!(kHjs5CO8}NtKnRW
z6qcZn2k}rEx_-9W=PCKq*W>+a#iEfPyBThytp|&J6o=7q+m3YG!94qFw(($+eZR-T
z)gf~#1qY(w>HVSw=VVoB72=#JL`TC4whH^g?4eH$d-p_hh7MJ^>4J<h(1ANw&}iAc
za!tS;6HFi4cCAbmXy>G!5iL7d<pt3Oadqu_1Cl_kTCslp)%}_%sy4Y<HC@O)c01?$
zyBbZUoi)HN`i~VkhF2f$fqG#RbCGwH1g}!P%<<<q(K?~3y9E@7PU*!nyKO%Hy@H~&
ziZn)k)>zaTSH60|V_f~}WqFbH6_#>EAy8TB)I_;@aTEX%*#rG#jg+|%oTwYOhL^@I
zN4&b=KpGP|{O4M;<%Z?N0EIEN19rOx5*VSNiPr^)0m=vR)F5-mH;Q<|keV8xbTCd4
zvTWQ=k@q~_rbd?=GgHJ9#&XmE<pV4S)O`tsDIM|<3uwvch%9MwAVn5cRzN#&PF7G<
z$?%L?T;(G<tbnc+8O57COdO<M6-jgVd1yra3$HIX@b8ua@EmyB#a-!B;!YE;_dg;D
z;rIv$$}S$O=<0q+1sE`z%N#2H^}ie(LFalV=v%erDn)vx`|0lK>F&u`*B7tn7s()=
zE%oWT@h~`VJXuD(_O(Ws`tu~U6S5dzBz@h|8dtkdE|Tn{rqv|xVWexP#3zw6KPSm!
zu;@jr)FXbf`HGnY&%`$ef#=yn!zXXqXaBS6kJ=n&Ka|EO9xrGYG&Cb3p=-~HWhY4#
zm(RrwE2qtPxE<P2?D(sUNV_DWoB2n?dUG-nq=`lB6^X1_l#$&K)GZo0!*y~NOsh3<
zlChsO<IwguPqe8|lmivdXxdf&dp}(+Nz`#-i+EwO-aI{$W}tOWyje-Ww>`2b2rwVj
zx)FIvoruI%LL$%c?IehbNAB}y^nU9in%~&kY+;!%X^@a^5?BR3@ik{gT4Ur8cX4OC
zDJih&OoM6h)c*PYiB*3frnY|Lm>XS{7~%8dolMRodd*cofBJg&SN`Sa-bw%A-`g+m
z=GJP?gNU>jWND{v(mvVzzxjJhpE<!!7&(4YDn!$2=hN*6@8ttLrYY={V=?W=SY?Jf
zcLSdkw%aX@+2}<cgQxP#=Aigl{4O)Xg3QvD<Os&nOU#q}f&4cC^)KRTTb*271KV}$
z$V-!TIGqxnX|yibv#ru0n1w4Sf8UbSI1<vy%jWsg{Is0tD2OIO5VGVn_rh*AOybz?
z@FgQ48t3cOyT#Pg&?Umj>(WFE`A^rOn5H2wkYc8%QINvYFy#kn<%5iu=m;(P!cgc_
zM!aR2z3lHfYEW7m6wlaSkau+QZ8@{Gg|UUKC2QSU;$kw=m6ujwu@jOUbBKx)Rgx83
z4f=rF&^NxQ?*{W{l)V#B-*%1z8Dt3Q+a?x*^lK!~#(}FsxHyG0fzJgS`7;oZTi-61
zA%vAN1c+vq+B{98S+I2CM+ll<fGRgij$(TWqw^a=N0ucvP7@HPzmE=XI2Yg`4|)8K
z4st2-&BiVc1>`eDV6W~wu*v@uE-d|s*w66vE#9ux-0s)LtWCf?@Lx%kG)Gb3Jq?@7
z?7s?S$)Hv%_AI5M){bpw=u+vxOXUJ|!YXm@610eOdmaVH9OSEeG`TSt)h9l}TqN^H
zl#3_80;!rNKa>mdlhMe{6C1<_)$7VmV3~y=BiFXSf_+v50Am!RkR{0kHit)w#bNiG
z?cm{Qg0AV;BqTQMP+sw2k~D%9>m42DCW+E{a?D{UUS(p>hzog@575O=@xbu|in6#o
zFttnXV9}{o7~#b6oFqo%rAr6&dJr~m{mT&M1X%0o0jb(zug|bxSVDqq9)YzC%p@?B
zP<KUMtuqL6$ugr!CNl<*IN}>9WA27rT&X}+G;4_*EJ&TA#aw{ZblD&xw3|aW#*u!k
zLzXEjWW|!*RWrtFwuSq)Q2^&3nnMv)eeA<TuY^-&XXe;c<@NG&>Pk%&n~qpEOPC8+
zohVZ^T%_tCv3xSdF&jc7;_UI5A~DB8vgg4oZ1U!$4q2uQrb695Phs6Q|JI<&oGP;T
zd^HiR=`1p5ZY?8wm3wu~80UYFHh)$kD-(!&ih#QB?6a6^wrR?RA%aMbDLGHLk>YL9
znJ~A`MRZ%-Ee)Hn0O~Slp^(06$<~xJNt+q0c+lJe-TG}^)oDw2X&h#hGA5a2&bB-g
zhuJno7M_H9bd%VL1J@(lUOmDrgX(BP|Hj^(GH2WQC7dm{xWFcisYox1?6pWmI&gPG
zTuVo~1ECM&)hL*<>0Suw^2!oyy3#WLoMPfhy$ecxUno?QdJpQs5frJJvg$#7IKt#R
zEnCu)hvRcZ$-|=udizQ~Uk#AH{9d`#t6m&CD>SFrSAZSQ!}cNA#q|&x?tN+850dUY
z%=>6~Sk1Spp+11{5E%#)kbw#yoYD>rkOA6MDuQEx!ck4;tHE&s7@@v5LO5<efnXOJ
z2ov`c2zS|P8x8#vY4o?5J|6TZp!cmb<Ea5ZQ~^X`V>QGLkz13bK{1quVqYQVfiVQZ
zs7zQ5jFG$*mSL?zi{1zVT+%X_u#fOKh*u@1p*{k4cGG&B(^K4Fc#6!F+$nA_+}bxy
zbf@y7s}@((1b2oiH>VKJQtmT6s^F*_6Pq(^b&+cspaFD-L;|0Cw$xx6<ND3hJEjcB
zm<%PF7H9$-%L{N{h*J~XFLWPM&9O>r_%F<TOQ{|cqhCrG@j5<e82!dr5^DmJpWh1n
z@LNl0{7gVcr_v@qQIeTT;(7wfOw`6glh?TdFI-fZyqshBOZD;7IJ%J6fWu>D()eHC
z=?sPR?FAl#aE~L<WOXShjO>oIs`}+iOub}4XA0~R4|jP7A87KrLcI&8+nS|aS9lD-
z!<{LvD_p<0rz>dk`h$mr97vd~{83n1_~$ARW>_iseX5kV&%KscsZYl`r8Vjr*C-y+
zOc<_ljpCjIp@DEM55kvJ84rdVg>_J^dUk_LiF=TRCZ!v&Lbu)R@gy{b6*We8kW*Yy
zm5Ovz(31C?1)hLz@!2bt0&lSz#MWW(rhdmSTAG&LgIi(mfGt^Z);l8+rxDt5bO-u=
z@!=|(LEWJ;kA?R17qijPR#kX3@6k$vpf#8!^n1`-3Wd(pqI*nAQmN$!dGn`aV0o1P
zf$`x;;e_HpOd`Ad5O3a==uIC@;hR2~2ue=3wcl*?JKUK{rIcEqdQVh0Ft$|dSp6nJ
zTN>4Bd7Ou-jW%78T1Cv6xcl`aNc6G=rl8SYIC1FO>n(w%3;}~fpd&m9krBxL4PQ7!
zFzeb?7kEg_<dHad|Arb6b7>BEugT)DGY2bkl@LvhqlLV`rkx_-@v;DN{9j*4qsY!&
z*zMQzVK+;J2O!KrkbNJfdncT2W>PR!(A^QCRuZt4tuBhht|f2Q>P}X|rp<z^4olpZ
zn6KyAFx{70bXjs(HYJx6Y_`jG9kR^H3LDq;Q`kh7(8i{csg>K&Eae-g_G=Q)0GDv@
z;;xfL%>tL9Q0l`MRO%~TNOS^2xf1%&&YzUTiG#c66`oD1#Kdx{vI3f2Kdq5Gg;{|L
zQ)#$SQ<#-lVJ_h#f{!DiN4X)M1Cxbz*gWf38-kHF=ePgTl;;u4oX9B7BdR$2W)?NY
zd0Y$acVs7-T?KC_2+pO%D|>9bd%(FD(QW5+pYiT`2TybIJdWBpjC!%CF_xyF4tn5e
zvuyD+)B&~?l$xiSmOhE!!l={?_oPr7;ra=+kr;~^uM3j~_Y=1B*mMW*z<vVVQ6=fG
z2=r12H19p3Oz}S}6zc^Rr#2P?YF<ww4eDpivTtRIJkMyt;Gn9ZhPSKWaaCTo>M8^T
z{60DwDlQmJRs_fc#zoI<RI9gYxOfV<sJvjx!)*obn)2jP`P$aV!^H!=W9?<oS6HsN
zTFk`7$Gh`5&1N)Ie9VLG+KqUC_^6>&*K##T0^CrPI=})2L*aF3(I5%ngSgwqPaY@%
z8ZaKNyK1n6cpsy}yH7*BEe|~g7J^Md)o7cCN(lO{QQgSyMZr*1Ug-Lwf=LVoUoV*J
zdXQ;vcmWD&{I|ErfDz%%iz=tIA}s2XX_cYj5rHjX+W?Y>M+6*U;?~J!;D}Y=h~Z!>
zR!BRDx@c&4#26mCA}SA$81z@QF-fpkOG0;<xFq=6K0@0j6Ztc&yAydlJQ8HH_~pf8
zYLKJ~n|Re1M5YR^OK_tL4VDyC>&lThH5tC*%kW60lk*kVY3>CuG~vC1u~AhQc)I-x
z*4y_-J=HLIQ*bqWU1P%X2Eih@GKYrA8?c8sY@OsG@&<St+R;QcT;And9=SDYMrr*W
zH$|n~=R0nS@Qd!>!L8%|oE;DLcQnDW-!P~lzJ?&-n+Fq*HJ)4HTxUc>V-2FQ&lmF0
zSfd;H!?jlpkq`8AKd%FTVTd2NA@U4_3H*lw@K{;k15B#PWC}j;w+8Lc1FL}kAimsD
znzUwaKeOT_^A29WWgUNzb|wS*Fz4~W8pJKPeSbDf|1=gKSu`9*!QArlw-4z>pLII}
znMAf*y^i#~D1$MdGaN5uKKsIdwzJH3@-sUJo<V>Jr`){BzTLDepS&sEpW2$IQM|dy
zw7mZH>$9y{@zwH$wS(gO1__o2_xAAM*}U^~HM%#R?91ntd1jdz=fT{Z1@C0Bzw3yt
z1H)o)+BKpYv1G1zq1=?9<T(skZoiOh1!3NM)w&G#Em-tBVL$g5bC`d$DzCPbJwhPm
zj>i(Z)H>9q?dQee3L{fevv{-DF#GHKbwy9s&HPxeSW{3F(Hd?LJll`NUTDlqg1fu#
z7^NwW8P_oHznG0=WR7~WBi;-Nc^>EVbHIvOR}T|pU)Bny&h6-#M8jeBt)mUJJ@&vE
zq>eUx;%1`~$D6wT-BT~*Q<?U0DC&EP>}HFd)Oy_2q*w`_3~RW(1)O>HMZUnu(Ha+G
z?vArXHUA{;r`Aww6l-iwBvunffnfn*CX3?il3AQsQWtNPVt%*y=34RkcyVM@cg`k>
zq96;=j-*tTHSI_gzY0?RLibjj(R1FRXEbAG$3$yb3uomdMFcuPUi#OqzVvTK38Nd?
zr$4fcmv&noNf0gG$3V%*1Xx*Re;`IFQ`6tTTXUYR_RJu_cqMb=j?A|@ZzoCA?PWil
zS(=dHQT?+%Ue<6(^X)<2P9-gMEK`q@Y{yw_8Ed-C@zx8ME7JD*o&3u3ea!P|QLQDC
z>ERNX4=5S&9SU;zW9q({X?{(~x0$m1{C1AMw7=s9BzYRUCce^^o2zj1Cj0RnNFHOu
z$pQP%Pio%gvIm(x;Eyb7Ma}-Z7qxP%{631KYWQaIHAzC&T6G^s;-%v{OOiMq=}b1i
z99Kxi(a)oj++7a%qoSwC>4#U1{KBaJzu{8k@FV8Cx%efQ`G4|q*RTHx-~)Ktt(0MJ
zn=lZDwSR;$cG8bEB`TAkYtwDXzMLH6L^L>Nwv#FQ^|K9|7By9xX+jt{-#zd7?gTv5
zd08J8b_%u2E$t?Y`_=w2X?_Aiz0m>`7e=SJRekN))LWnRR_^A`NUqA-4Oecrw|8v$
z?Z-zo{|uSXMrN&(hC0JrXD32;ofHnGGow}MH@MS=&7inhdjka5k;PC3Q{M32n=Dqm
z#})5OmJ0aeK!Mn<6@x++XhRCCb^3fvmU)%D0Jg^+k;Z6)(jq)6X)WK#qCQj>7+(4N
z1`u@`gjRjqNr>LXSdIxW?knP#(*v_5u<ZDE-YmU?A}I<B3BwJ1fTs|T;9N$&q}*5u
z-}l<da>#l!Ti_S|u%+Z42=6*A@IeavMT&UZ31rqOm(BfB_-_Iz`4k|Jfk7f~)I2Xa
z86;yHq22X+_da0?8F$X0q?Xpnrjm{a{R|L^`c(jyfp?OG_<A-C;zAK47T-3_8#6;h
zr+1R%agFaIRc<a(X|BD0dNp`=2~2XW6u*|c=`V592Xh^?@<Vx+8OuM628yj=`}JCy
zX=_2M-W~rbnu@)#+KjQu*;u-Yt}&SA(H~2__A%u<1nH^ZZ+ra9ydFJo{14or{zFRx
z@)wVM!@H5W0nZh9+SOcXbECQvt@n@24j+R<W;{2}=1gufUsN)d9TK*%B$NF5Cke2z
zjX=VLSFdhek7Jv2)U8%8QUkcVn$E7?A5#-tWz$smjmMwM{C2YX0+JLbkqZLoCXuXo
zL41|jCjRt3dPU(POAriZS6T7jG<`igx1aue{0bJof$ByHQoRf%dX_*hOAR;jedK16
ze33-K41WQ$D6ubqW3BNAfc&(?vLzLma0O%hQK|$mR^~9C*|H0^KhS}e`kq@bs06JT
z!g4L&e@>pJ^T`WP($7#sNfITJ?2v!vC{5u8IalxV6xhlV|8D_F&m!PPLG1Ym&|f>H
zIt*Y#tP%XOFR=XtZ1uA~Zd*PF&ctyhwz2~M0hK<N?fNv=(D#?neLY>Ny7M<f;ffB{
zqB!>nLXM8;$6Kvg4Qi#|$RSX^yjc0;#j}cdbMdIW!0T6C`w28W(#Tcbk!yJ&))yIq
zIm7RW=56T#I9rZo!_44Osf!qf4p!~ed-F`m*{2c1B=y3LMBgB=gb4!c5Wr+Zm8)L-
zpDCAqfz3zG$W<Vv^jp1AUA)hml%e<@xm59ie(7a+*wUm>$%mIcOICtXtW8iyEvzpr
z6x374wz0jubyzz8sIcw{WHTJTJP+M0hZ!Pjv}GVoZnmFL<*7i8AqJOj@aqC?0u*ND
z7aAqfr;#6pvZMGY#2=1C7NU=#$h03QM2Y8~C7b++P@6_U07vK3V(2AlE2FxC8Kg}5
zg@^oAN>`4+?@jW15ad~LO)7zAo23_4R*L})piuz4+Nte@FhHxm7)pVWhjkQ%8%3Ht
zc&WGa@Ur-<#^d6+hE77V3ZOV&cEOMd-G`~0t|S*g&&ZFfsY!KiER{f2D;%%wtS7<{
zqtFVBAX;I^^68^~FxCcTz*}L}l-K_RJc~&qS9{4FT`2}*8CBmNtRn(cy45lG-l3nP
zitmw-$+mu#xC<yPS3rBqqYPO%e$$K6yB6y#76@Ii=6yt?Ub?%|J|BR>cz}rq!|dBg
z8l3reG97zX4z@-pdL=d486!`@xk>nrl1wGZbZa7{&4|G}DoIu=k3JxCEqGW9<gXuy
z1s<{SI6)Qc41y*Z#iG}4=qr8S31`L$&QF{0+UK=lmRh+E{EJ$stlzi^*8aG+U_A$&
zP8$7;f)iFcL=702?;ZOalN!fa__^mzBx#zbSrkxoHAd*Q6_;xMj^dWFUAQEyQesjP
z?kbE{)?%n-@@)VjT!U12OxjM2t!Jc|oRL{6Wcpp?2$arZ&T%_%eVQAQPnmGOK&VX4
z!i|sY1eZn#2b=?+mG+kJ(2R+E#E$on`^qP=Xq62PelAYRQCVwIJvVCh$P|m~v?+b1
z?<+RFjctXN`KDrHrqm65$~wrjb8<C#S8<u#l8JD!W&1}+Hrc`^fN7pl>U}j^3%8_m
zAxZl&v*o^NVVBWc-F&Ltr&%^Ph{@105Bkm<zOo{C;3ufLNfCxeeg;V@DO&8G$@52m
zhij!Vnb`5<_WR<A#37zl7$J|h6qJ`UIMi*hr_bb$2^>qUEhI<+A)(oQ^%GE*gj`uI
ztKxH5vMd$`n!+6?lOp6A+azH+z;=#fX%08RxMfkr0vear*iva?Y#dUtxeOr<YPX~w
z5>lNdBupy-TZ&)YQtTJ$0&@H#L}5O7>6Gl632|Hsaafq+CSUrVD?~CEB9Ro#a);6k
zJGhJ;3>%rQ#F%Q^g+esfLV0w@<g;z;Mu?`%0N6aYLOh*Dz$UsAtUq`Rfz7rMW9v2s
zHdU`3>aL7H=Ff8u=cH#U&~Jylw;acr4PT}>taRq4AW16;S$lSR6lY!(>euw2LJz7P
z<>BhmTcgYiQ0jE*V$D|-2vx+4JXztlp99~~Pr(ZRJR7zbuIL{p(0%c%vS$I#P^@b3
zGq>i;EPPAANci$)7L(JuD`@Kg7lESQQ2p5-lsQn)b{x7_;`X&CRb<bxAu<ijdgOEK
zYo^V`r~-xLWEzDjDf>^WA=RaT!Sa+uEGu~7=V>n-7zCQlziHE*46{hiMRta`l3^Cp
zg#Z&rGR&gk%eu?mpnc!ZmvL+SnaP1kx2+V7f2D8*kba9t`^!H`U3DaDg1-1EI_pRV
zhyK>(^%cBYL}Q7;m&5a!7L&#7h%U!#qu*3p%_^cc$(wa{A5s_Rbv1L}9oP*qfFe=H
zswmsnM&mOv--RE+aU?7ZS9adUWV=pAWK+&ot1;>9=<k?x=bz!2bn|>nyHxJbdQ7@S
zz8sNGJ<GFbOuq9dQ^w?*NAGA%z6A=r5&5(;e6>3&;Rp1_Tz?wvVIG%|^d^o<i1X+X
z39Gj75g8X5%)Bw}RR0~Oa6RVIH_p)-=Kh!yY2N0zVD&~_9<{E?F-T3n-0?N5t=}$M
z{`&ZMQ--fbw!UM3Tl)7IC1~oyJVl+G+rKy)vybkoFj%*Y9QuYCvx7y6;#9-cANs4!
z$m@$!{I#2fd+u52?p|ur|3iEIs{#2;_+b8lyZr4OGn3<AA-!}oT{S7@QHX%6=c<Y3
zslWbNdm2wd>Tg#KQ~yt5>fvh@Yf{i3A!&H#fhkk#ev0}%4QZgQ9ber)vK;t^03Cea
z7>Z{2=34{myc{!Yp45)lHrX8Zdm4G8L35tE>)^<i@o1P)jQ1F*0k-eHAm{G3-rV`u
zN0`GMZXGn7%k&dwDYRwFk?k-IZ^hq&+I8r_2mr|F+SD!zLD7*TcoHsixSKB6GLaG<
z@5^bx%mKe~=mFQgg0Sm(=Lz%=VQX8*ouJN}FlgEzlqLN}?!>$lmfpMWoGIedg`3Y_
z^iEuQ@+OMwgU*}x1?nK>Z0U8DKR&-Z;;Hc%vzxPAI{F(YJw($k;S%|s!hP}7cJ1k$
zkw$sqqEtgcoPBBzdEMTgyQ^QEqDZtzqIXXcKwHXyW6{Y4%c!jAX5{G%?E{h}N(6SF
z&~&l7kH5xP++)cDsWn298}Qp;=c&=M^RNxSWYZvDuTi3r+w5dI9unN^C2$$=EkBB0
z;WL7(@}V4an7pFIaf(Mp^x`Z&uTg6B9C%Pjat7QVkluc{ua=#6=++7cp|($`yLpmE
z$#A3Ho~(b%95yiSYKAdcwM8D6D{UmkvZZXSrGe>A7`_XAzg`s4Cc%^Ox~tW`%fR$f
zKpkIsb@RQ%`jY;*=*OGVg`=QoeTvQnHf0a|<f+zG85e!f#h&_xu~(C<%lpq5al5YX
zejLwsl6!}(1~LB!QLB<?G{s3ON#uN-b`^O+|FBOVoOXw5>r`spQPK|Y4ma=|hPxzK
z0bON0{{my>=zGU@P0#6&o_nf8(u?QS-~=o1!tK16hnwBC=t|E>dm9sz5El(<ZLJQ&
zR*wRhK$_g4EKfqhvo(OnRQ~9$kVS9$87Rj8NTNI*Gsag9gro6YM9DawYkNj_bVJF>
z_`F%csUp-n0*6D~_52N*y*Y2g;$0`hR!O8YZ%{zedp9T`>8=|Tko3<D3P?KS1_fN4
zQo1$(7F}+GBGNv#K@n-E+MtNE7j4jOilW<WSV-DWHtc2!?HC&v@}vx;8Ip8;4VsUa
zT~>o)mVH!1Vs1O7h6LU9LJf&pI|v>q|2Xbv8lZgIrRjO?;j04`mgI55$w+%XI6bE)
z0E28PFm-+EDCr46xt)*y{4YFy+~tv(0k9Hy+Ra>Bcbhm6KKqZ%9Y4m7+j_UTG;w#k
zebJFYc1XAdMAG!vuMil6L7>4TXI~sbqWLtVZ*Bq^-CZxQU#?PgO_%9*r*7V6|1Pg)
zk4Q`3LVHg_l6X#fO&2DzKbOBLR)C)fdVL@XL5`2Jl*|@3`U7!UKT?AU>lJ6mi5F5Y
z+%vgzq|7!6_UIzYLbn*GF3ju1xyQ=ZMaFX$Q8K3yqR|rxQ+pF__{H(oY_a9wFIQct
z$}G-8hh~@(cg+A*26$WD$pIHS(ql{?6y=tE-jjVmLR$X8;1K3A@}p2)88P;fl->Rq
zxH*SIK}OGqtc<Uy<vQNt1P2XVV;KbjUTGnD{ZPQE%nE?Cy%dokrf*ZC>YKNiaL9_x
z6|Q#Sx|3UW5b%A}{3rMP+l08D!~WqTC?o+nrK-NSBh(9s{k6P!x22Ron#?;Su;h$b
zN#anIxZEV*L3T<gN@E-rBU7a_6Y+q_1{z4w@~C-{?6W*<rqzVY;a2BxX2K*T#dsEV
z+4UmZ?MR}`{3v?D4+Oi)C;_MNUy#i57)ZZmYx<4b-|EN)hrcw_fih!RlO??@_6hsr
z7|6R)upm<2HE^rwoJ;yhz!&UiH4O)A6TMcOD3pan6z9UzG2>My3R8N90PVnYp18+I
zFls7{m0{M^7%QY*=Z%muuk67GcaD4^$riK!v9^T15>mv1yp)`EM*~c0a(B;}GrwTh
z-ZsmV0{c}_K6ySRNq#pqB6gemD8JxRe+(6vcLT+%q8vikCD|3RtX+~WF4072CzZ^5
z!?h}kcLzMp?C%8Fk^Cf(`Z%s0IbL8sU0g2y{rUQ5aQ_|YPLvSKB|Dt?)VeHxmcJk5
zcOj@zY~{(O=#E%&UU=b6%)_LKiZo>K1XNrPh^lv5by?sZs}H9#N@L;;<ACSh*(>U&
z7N1gy13{WfG)g6~5*6v1O4NmpRAMkP8qLUPbVbHqQFW>td6Rw!4BYkt#_JvvYtp=*
zXQdgt#xzRob$OwO<QMG+trdyJsi9hEhQsP2Vl4S5zpe?FWon)?8WEjuN{AMESaf}@
znQS$;+XSpl6<dI;F=WFf+icJ0j{Dl+4kK#2fEt(i@cilkHV1<Z1;cKfi#{B_q%EaR
zR|`T6MTY9yk?L0&orLYm1Z>xwAfB^nQ4jm8XO%qHWCO^q^Td9@N{9Ha!1zAjWXU$#
zdFjJhT*q))$Z%cEi!B&%i0@*oH)-GM?AWD!>o+`LNcdJKma31ys*1kVGYHFoV_6l}
z7)z?=h$uCzosc2@c-<Om6<!{_K-yVw?WFA~*3pKeO6e#@T*z9L70&wis#2D;;>`#T
z;Jwe1ch(@RTR2w74yrWVW(56*RTD4NcQ~G$dSXb4x?tYOnP-;-DzK33$lGJntBSif
zIr%>oea<r9J_1|Oh4ZrY@K2JH1P)~%p{^p=+j%4bLGIzS9M(>3Ob-qxub~+Bu?LnF
zo#T28LFuacFtEWMLxhup*)p%101!v$h{)W2h$jvA3g*b5USeka8WEPIbQ3~q7LbfG
z^{ap*noMh`R`GYL&QP1EGgM}!PB)3GC~<L(*dJ;*@?Bz+C4K#&225k^6&jbrbZaPw
zX`do+^wWRB2sa!h1Z>k~*rxC-JmIFBJ`ve8Ml$WlEy?C@o)^~jJ!rWgrvvvlI^K!s
z;ja$e-)JuQNb<VSxF*pni<q_pV#)W)BE$zEqFnDPLVE$CNmQI7s9!)RK*cG5G!!7D
zWHljz`vN7VL<=jz`V*>}Tnj6LlZm)`E#gj<;SE^)I-zG@>@tA4_uLmPOIQ=8kiZH0
z6f=Q}3H@xGf|hJPt8ufdJD1CE7LXrDiVm64g7Tv&daU_uDNmC!SpO6B)P^rqOGmjy
zvVl(&Pr_o~D%sEqx)pNAEz`WWfG*zJ>UwL!Kn9nn$Amo9WJ$D!aE}pI>T{sgx@wG(
zc1s3#&-e;KHM)>;o30!<PLIJ}Ku0pqovceQjeY!9a~34?YKw`gJ@$ny_6{WVZc9zr
z8Rn36a1(XBU=G)zld8GwbrAbgyfT2{UO5~dh5W_9KCR=G?w%-#f&MP)Vn$jr81i|2
zfy?zPqNC*&Zcz%@O4Pa%{js37-9l4HtDPKY7U%PzS?(!L#Ab2+8r;RX&$d0|e-4hn
zaG^~Qu_PXkFyccUgh=f$wzt#Atqs9vX(2SuvxL|nz(BFPt0A%KXYli=-R*dx!imO%
zGT{&Wcj<VcqKWR+L788{7Tp`;g$gGs<reLnC|9^YNCjSSBPY<s8;obh#`9ew+*Z({
zIAxtnLUv4({F7fFq)%ok!So-^!RfP61RVJu=V!?kP8Ybg61|@Q$(OQx`&Calj)s#-
z7fk<I=Jke?H}~YGo=zfJFzr{Vj;L$Hb6m=NLCe(itsh^u*|(Ydo7G8i5;-WqP7<j_
z=eu@ENY_$&+>sSir9J<~gTKCsieStrrd|}9H~h!o0gGlpTNMv^I?g>P59mXt);!cU
zIGuA(SsSI#9F7diogD?912mm1Nuxw~!f9TeGdv!W6ubg&Zn;E`VJ^8?jYPZNCwLuW
z0Is$!1ov~F^`#15qkEbV9IPd`#w{oEed17a^@|dIp2%eJAeXaA2w9ng-!7#s{y|n6
zWr;&lJqjJ7->{E`vPP?wz>Th0XdCodPK@R`Q&HgRIK`N6>GvOET%Grrpg8EbmLQ$k
zB%SVH-!DCJ|LKSJh;N=u;|ns_?a0wyh@<^YoN{x5pA0!330bX*Z)_L=d$`ZVws#1}
z3+5Y&>)e6z&6I<GmMsdqb#$VVidQ&!BFR*$)DfpvqHKuXMTri?vaR_jxI>TqQESAH
zs+Zq5GGV&9yX#9>WvUS8t4G-riV`rw!-*@@yIb6jUsfJ#%14?1zYx~7xSyhAQns*;
zv?9wC-$l_nEhhZ#i?f4kC+5`QE}!$H_WoS6w{(8CaEhD<oV-gZF0RC<34r#ujHHK(
z_oJd<1zMBZUwg8_8sqlYYH~GIj8f`h!&XD5Q#U3ADL2b|K+d-h*JM)LlzY+dJL}vu
z(`HLH>tnX;&OP-ISUoFP^Vrskg{J76WXyVc9@U345&r>LcVP(AFVF~h+PzrYcAGj7
zUFVOu+kOm$G;|%iX`IuQo);}428S3Bk%SZX>#GZnlh#fkvHgN2nLT@uMl)MN*RyE0
znu(c+c$zymYwKq;weFG2*R=;v4I4F>@uFVXmTCY}V^%mq|DfJTyJ|~OprX#;X#-tN
zci|*STNBY@0a-E=p@VGe>Ul(Qg&uMnEZi$Bx~?zi5^6u9RfS`>hDSN}Ne1n{ZCw;l
zW<PM*!jY-GSU!4iygSt!76t?|s0lbUH(>6gU1+x~6s?cO{}$q+q*!>o!F7ij?Zo&x
z5H!lRuT(p1^BmZ?;0UTltUL4t>gVwY1yiU}W1z+rWZFQlm?U>VmWW_3`eUG!VVstf
zEC*m@4`Cq~ABagA;GsN()`PxBVF0soJrJ{Cv~31rWDn|r7>4Tw48*iGW&^%wo16M$
zG{rECO-jmJ1_-l7f6$Bc*Bj)RNHBE$QG(&31UBreJY1#4qNOb#h||G<C_|!c%Klz@
z8!zvmY@k1%j~T;j#mArl+<%Ms4ZspL&sniIaI9B>3)T`b&|629sXOItg$bjoVeIrZ
zV7OEIGz`F?H^T%AT5Xs7b{AmGfCF2pdL>KC`1-l0US6J^hd=*+{94WbLmr_FMj7N-
zM*HZz`|bM1KDTz)6J7CUrk;<`D;HgcA9bbiZ`4bkTF8xpxYaeSPlfSc)x<r%yQFF+
zvYd$mm+^xG4;@KxXcGCFVfn@~+ipx7$v-;6FTDxP?0jS;E(ddjlTMo0cGPkiINJs3
zY$hMFsWZ2)WrS&W*1mpV7Mw7cF*3(?nj!z8r2-~`BJDLF-%#x_-wt(5(?iU+n^(d=
zhqPU&R;Pd>6!D-O-Cm~ccPslP<x;~aF$uxZ7DrNc0mJ1>)%B!z$zGgWRLx%O!`s+#
zj>|H|WVzP>yz8<zmv4IrNoo2anHZ3kamqUE?vxOu`c(}MBK^J#TFNFp2!q#zIz|(f
z5yNp8!|pjX>1K>3C8bMz2UzY!9UxQ8mcZgz{&z4wPx3jZBpiQlfs2CHM<dlW)p^b8
zpFQG29GP;%Sjapp{6sxJY0~}UE3TBRIqp~dK^a7}r1kM4#0SPGGpTEFaqHgWZ_B{H
zM7~T1lmt?k$P^dM_0K`$a1=6`ZQ!Jv?da=g#$RslSRN@mi^CJ5ZEbz*q}$)%?RU5)
z@g8QboFqT#(x`BN(=3fH-+{VWN%BLP<U&^YP+c7yc3QrullW=(2yN@^c#K3Qmd&K8
zYm>>Dd=zOb;II|P3$fB>r`zg&q%LPZIWx(=Ozf_JxIcjGnYvTasxbHF^6`RkM@ll6
zF0y!NoMU#JpQw9|Sav&koxgqRlb&wW*luA>8}4VoAeZu5J$2jowBN2V`G%C$DmLES
zt?oSfYFYfg5p%UWNoqk=m!E|U-P<U(twIhVWn^>GSiLK*jh;z*9Z|0#mZ#Le{r(N$
zYjBzHumRZ>c-qZeTX&jD8(#Y#2?*$=CZ@G3vDun-r{B#igwc>75E#?gU%zJtR8Z#d
zg2}gUQmf4SyywFJgXXiV+1uTWT;<D^`LOH#y1MH<BP-v<eUFfAM#g<K9MMnVa!at$
zOT8?|XoHED_fT)_puf;uK!9GnjeWB92o9!{kco`m{o$J#;j~S%>p$#LT>jT4$qSC{
zt7NnBCRU7p)9*SW^iz*K8OA;RyTI!Wj!6y6xk{oWHYaxKg<0MmZm`BN&O$#oxLo&M
z=55BwHV$g2)+h+n^6gDv3QPc8X%s8Nm@?RIX+l4jOLGG?u4dY%t8HXhOy#3&y=6Mj
z2VsuzCMCOax!bth<~YTAYBKtHyj`tucDfodZJsZu-sCb0VZ5d^9K=mvn7>2vL|I2^
zw9QKbo)!g{T6m7hHj6JxsF1QG5a<%H+0uv13(5E8GxmvL7Dibz@5;MVYY?tAwVH%0
zT`Cr%GTo#Rr_{(%OIkI4LQNXOGJtVhSuPA2qetBwXUNOex%^7Ahu>4GBpjfWQ72D0
z$K{%Kx!4%`G>OsB4k$I07iq2}_(&7Akmh_*NP3`JD9^YFBPt8~Hn(}uvj99s|05%4
zj-6TNFFa!zAp3Qj5IiIa;^{4)3pHG3dzxMb56J_+__%C*jk?kwj;Ts-Vw!h83Z%65
z4CmB>cU1cy3RE+V8s=Ohq^MLjU-pn;{1rzj&I-tv(e?P(|9*elEPkNApJdqbH|dc2
zJPEyM@@nGOJ!y5o^wF`BJE#a5o9FOK_=qVD(kzV0o)nM0MHKqDSRhkhgHB{v7Ol`W
zkC&2F3T};-p+F<WrS=v7%ReiL2Y9(%YZ13r8)9Fx%h@LxVeSldZ5O`RLff3yiM}gt
z)>_|!OjGzEt>`XawjdeyHf_96naS*WCbOF|S%s8#5jZ&Fcqml0jAB*SE^>KYAz4>V
z>$nN4gxpWO4gTpx+tyN?`Aj3_w&EB!NGqN^#Q8Y5zGg_}#upI%0i%B#<^+WC6=@|L
z4H-l^M}cuBN27%_rI~`HQE5yp(Kir|o<uFt&h=NT@&M)C!h}-8h$VvLu~C+JJ5>fS
zbn{rzW6v?2&v5K_i+??{4AHSCT991?^Jx8)d14Qlw#<>PshLG;nP1<?a*(RqvJRNf
zV%rp^9ditjqtWsJajpPZr=1`G<{Bc>=?Du(n?Qw<*+>jC1-QcCr<a9Z5c(ibm;nS)
zA&BMB%v;rvk;b8R*6J~e#gy13Wtn<f(oI=lMM+X)rH|J%x!1fK#|171jH@Ju7kASG
zIBRu>48(lUiFwhiVFr-wq2^tzq$gee*+=e;ZV={a<n8tpUI1$DgY_Fhi_f9W(1zH6
z{Nyx%H9=yi9AC0zn}Q$`fY0<>IZFc3RDBZ^BuNUbW-_CT#Yv$ynZ_&ewn3vLub?<q
z`j%LhSEwv^o}VQkSu&_qWG*b0B!fya!*4*V<luHw<;P-i2vln_ClkYLp)fN0w}fdj
z4!?x~GR_-R5}EzQlDt7$*+LR_a}glOZvcW~IBN!Y2d87z)YOc#gIYvpbg@NtP~Vab
zX3diPflL<)ql*Rk1F?(d=+`KZWvRM1>v{(^gynRgD(Yyhe^f+Gc-6B&H)LzhFB|79
z-Er<T{j?kAEch@d8?wOKIveIr?qmY|QPxpWU(nu07dcU;PhYu>F2W%C7@Aw$BBXZ!
zlE!AR0H*&<3r01aiKyS|QdduBB8ZtTgwAv(0=WmtA)U@d5OZxg^kyd!&I3pk=};qr
z_z8lL&Ke?!M-YT`2oOOa+4C+os-&oPnZ2+5d{*6WWyPrvDo&Mc-ph(`R-AN-hOjjC
zQ~eNEZ`6s*O;jyNpM@NhciRFvs&pU{aBkbW5XwnKgy8BTs3sK=zz~-Fl#_}G=Rw)L
z-fh8Cy!}rHszO#FcTW%bO_m#M-P~~EChby#j#FyiG!^M+2?{RhL@0s?v^`UIRudtu
zK*C6GqlzHjv@?b3_M8C0>FI@n=zf6%@%lq=BJ+Aj`|ew_{n~lIt7sn1JNEWC+WI=U
zj7(oH>=}!bHuSPmh;oJWE~3CQ2j5hl>HLUuZv`Hl2Y1~F3mJx(_RvGiOgjKIhm|3w
zomGdL0@TWljQ=5s|4J)$S^n!@skI#<Fma>f?B8hNe3lQ<o<DEhXK(nh>;7h!)zqY?
zB?q03-0ifap`?N8QDd=sbe@WGP;EDd!U;V{_X*Myl5KV4fgH9nYPW-1ws_%36?03F
z2$fO3od~|*G3{M3av$fq_T*c=HKbCLum6nC>4e%&l0e%oC&{TLoUiQbM#YPSkkW}=
zjps|~^<cW~Ud2)w8EX$v_3pWy%CXl;IijSBUp2^XHqd?KmF%U-;zeGnn0*60lDxUg
zBi-TJ&m8`fNmo{2v`la;H|?~)S}M1Lt`lNGJ#&>RZ*)ywp+wip4%EKizvm003+X@)
z?V>D#p8CpOc}_c$<TsSnryHfY7I+ha$%5a<RB0f5R59v~GtYm);9aP2tyTf?z>h*a
zJ8I`@b3^}GSGBeJB~$J5O37)fXO3PpIo+omF^|8LFP~~BEW_S^hjRYb+CE2K62qkl
zwGpN5$qePO4AbUUkZZ>tjMx=U<UW2~ZvXBDe-NFEvcyLl)?%9dMe4=RCYtO|DJY&s
zZr~`V7wXZP7O&||sm$z~e7r>yqsLXih~x$1%JTu7`uPC;6yp~zFdIyYLnIE_n0_^k
zlH|pE!d_q)T<v#W_JXs?g#Om*Kmy0#W_gme<kt71sO0Qq=sYsi@xTlFOK}dx{s4xi
z12zt)DjZIs5WHdOEIHpr({RNlw{Wt$n61iktTxo8T;otgJ_)f}Zaz&)hKWB6(Z;le
z$mX~!g(6k1Zyv2@@B52me?>Npj>LCpE~H7{S@3@jaX}lVxqc(o++8PWZU;ESEBl)N
z<)172QS!i>Ps`2algM*LN6ok=N6i$BHL}(Z3C%5p%}KfICsD*t=3vQkN`LT3k_~yP
zWS1TL^&IIW3p&{|B0^qu`5J^JD}y~x{TRQKJv(=Kj3jk{Gg7n&!vII&COjS~lOSmc
zvBFI%TOP`n4_4H#0Lef$zm_x%Wi(#ZymPa=UXJ`H54?=lIG?)n{_&%cvQwYDQ|3T@
zU)O@f9HY<tq7rk(VL!5dW-5wfdzrlBz#1p-@|J1B)zoypg@IA!@i{Fv&NSsDDG8I<
z`Og1o=423sD@?)-9^956Bs@KR4o~HAQFmLS;-ziTC~Jllg~YlINyidYq2^L*<0Of?
zQrs6!izXR2&B8aD(42ev%S~MIQ28y<GU-)G45sX`oKakCdKULdIbe~<+SD_)+WfrE
zX8-*q?N{f%tXLl?0fn?QEZkK)$H!eSM6l2gpY>bM5JvB)P~nMDN2Rml;!4it7g8jP
zwkNj-;uXu<#|fZ#rI22EVoV!d45fSwL4wiU28ARSH7ifI?c=CYOb^BFn5aIuh8>R|
z<fjhqD_Q<uDP`qt`u{&W<=s*pM#l0kjm-i-Vmd_R3>&)f6-<>oieoQce{cub6a}L=
z=o(h~2BJU>{nw}BSAzetRf5^?q7<wC_Gzi5RL}J;{(x4r-pkOr$>w*tJGK@l&DbH3
zban(kTAi$6b7;f1AlXOjv&_83DEX-&RTYu}{|oxifEDjZ>k4?<wOUbksyGln`;P<y
z;$yLPZ})7wcWd`-@4n<jjEW*)h_$`Hev<$S7QzH~Uo5rxzM1)El1xJJ%j5I=G+(Uj
z*U!<9>C<S7o%}PIWQ64u=bSzBXCBxXt)iHs2k|izzx{$GO#bOB)QKbRzLWS!Eo(u-
zT^^HsgFoh*S>O!;(h~PP1pwW`Z}A0Q#VO&VV63n$AzGtitPD&IdFtX;0(ieie9oDZ
z&=Y(#$}^I{hr2x8QIqj1X!v+PrySQ^(yJ+;2s;8=4;lzT1I%2xmyfU}C>M_fB>3d?
z;vE!$%#GAj1IE<S1I1ixVD-bM8&WGvC<2)qX=nh&)HMKNt~IdrFj?G>Nv%kM0Ay^U
zApi_=9gC|+`2zJI7p__~PzV}erV$YobRClqDD5<j8@6;1gso9I9U3dH0jRD895v9x
zMvcQ^O&Qx@*66f}I2B_;YB^DkFTa8?DBnd{IkIQt9Pw1{nv{_k2B>Y(M;OAn?9EZa
zjWMDZfnm@Evk*!fgF>+c!9dsD1`IWB#Dp0+!Ek;vF0df>sA(`vMU^jMQ2VP*u*0_7
z0yZ%2C-g&Rqc2LOXOyffffBkVJbG7#3#hg`LREKEHH4>#Z>%wsQz*e|MZla<I+$wG
zpb{cbvR7np-7#6#k}i&G9PP6>uQL~r-Q9ig<Db)S`}toOg(;)XYR}z!36W2I?3H5Y
z&Pz4<9xf8*epjFBxsS=un3&5IRl`R+@Sa&XC)Q$#-NP~EbRyOmB|`4MrmyPZ@>O9;
zwMkG>#^<idKozZpnlR(WTCD_{bPA*;t!s4c@-UICyDoEUnz%|N<uJk0ewARTKvtk*
z592hUF!o}sJ5`_Rxw2rKWZ4!P#Q;rmJsr9PTSf`KxH~Mtwvj+(t7)Q-ZK6*VjZPmM
ztWU$+Ve&W=O@-R@04)A+pG`z0JR<SzAYc_csIh<SU>%2P@=h5?4=mlw5neog`?fg#
zIa>b2mX)zI#CsC5)Rxl9ertwSVrb1cJoD$4+$8r7H21Yk=~C~2Q-9^|u;e39dNhKJ
z@1s16$!ARxWWMW&1C5F32r7C*Bc1HXY|A<OJ4|)gXhAKF>D>2#ht2<Ko{fR#&FW~<
ze-eJ788h84?{0LqW1%xBdhbg&1TB16-FWrhG4Q*~23YiM{thdAqSs!T5$ny6v@Uw6
z?JBST9eHuXp+p|n_D5mORq>;Y(p|~0gfW~G*GjU2ku<Z_%CvzoT^hPpmaSg%OS>?v
zTDEW}i>|8G$zA^z*F6h6D<ZyywQCKD;YFf$<<@u;z#P*rJ)J=(F#l>xXsd_m%^r3M
zm>HC{+E!crJHXy9n5xHaqU{Qq!(IcJI(xi{w#(VmE$wEfuOBxxu^q1dysb@Wbr$fp
z7Rk#!lh?ZnaDJ`({*+I#rhPjnPxf&2d;LPgPMjlpmrm?KkM&n1j^zb+Cjsqs8O_CL
zgmLlu0xC-}X#Mc!Y{?%x&;5p7;Yu2MITzi{+MBB%7wy_8y+yQ+lJd=O5Urap#}2)o
zyWfvV$cIF`O`{6317_z7aBY&BFX*H{x?fp(%qB}3M|+vq5|{%0?SMxnUbk>O7H1;8
z^P;P@)Y3m!m&od9)G?Wn<n=fs5zoa@DUNB#EnA+I9%U`_lqtT6qI+dxI!@&22uoPW
z8~lxZvLu=KCU^EEbDl_6UKCq){W9AZ1(r%$^)DLQ8**m@z9JvZW`VOU%UrLE-PEN%
z>7F`Hdc~ol)Kncag5zpMS@pd-g;WjlOgs;yql~5Og_aBe0=G%vg-4dBth$Aqnq1BH
z+*5RJPR;^+z1DXXa=lai3xCJv{*-m&4|v+uT4|S}yb?b59~n0FV`F2F@0niSwtJTQ
zB_~2@GXi0f;I#MG-z4BdD+u<qGkg#fsj8=zR8<!IIJsMWyAvaBxXvB(rv%LcZ2!!t
z025w?`p1d--#*Q<e|y3IFhVJ#K8}gcsDaQET|zPy3`l$@ToWT}?}_&+P>-Z3BmpK-
zG`Z8<W^?0d-TOYe?ft+eUni)SW{EE{A|S9INXWQ)&qbfHA=cK@I)%+|TPWW4h{iGT
zJoV&1`0s{4bP0oTa>W)M)xk`OFdv90!#D0(XR&w6^n-B-QP5o-EFuI$y*uFYuUinL
zt9k@P5L-K=%Nq2*5Ehc8v(W^vsf;G=hA$+_pv!s~=mrvCp)ZHU3k_t6$YSWWYb;M*
zx~f1ZAnreNcw*4mxRMp)1tD23UZ$`(j3#G9Bbpc;&}6X4#|B5}b2tYP#&8Yuj=E*1
zjP7P12qUpev*b-FF|UH4TiSem0R|5Yg3y=mb=5mj5nzK&r2RE+$yHfiUAy1^`|F>0
z`iw1~GEk|C4M;#zdFK{ihN(4`mv*WfZdJaJ|Gdc;o_h9os_)FhNZy^Xz7=#XdcZc1
zLO*}mn#jv><LCx;cqK34EEC|3Z+iIgGm@Vkc1?u6nN;4iFRJ`w;mF1KoB4y>FCF_6
zw&io`n=A0mFW@)RMS3ml25?n-5gJS9hKocxEAAL}tAm&alQ@k!h<o_NNGLi6oQqgk
zQ+c@zW+#U%|65`EhS4nb4nbWM#3Yc_<xhinP<8MRgXn)&6^TUEFnAx=NRvz)ToQS*
zRysnB7~c136oD_0F=jMYC6Nfq+*j-k=kfs#_v+_Yye+V1Oj7ffq?^CKH>|8SFh&_N
zJaxMT&dCD2yVWhnuJKiVo-uL+#XgPGFaoUKR-@y)8XfYzQ?1NIbt)M39=1<3JS(5c
z*}FwotK5;A3H*}JK32#e<QU>qtluxGe)eGPcc~@SxQQ#0kzNT(3FBcR!MlAa^-IXZ
zSr~<4-IvHYjiF%D$47musAZq*+E}%Z^1GYO=fF@eqI5}KfCT6)23xxo)VQV)?5SYM
zSQ<z08qOk6l|dOQ7oqtyU?N?iUdN#<ij8TEd4dUBU?If?&8bqF;+0y6lk=v=RA!DZ
zm&hBFSt-C0bJ<oAk+J6HunTj@XIj0+gicP#fD26L5^rP5!Nw+7rUf0;&D9*1rRs#&
zl-SsFeS3uslv8VwXOM6Fn)kkEFtCrPE_;=bG`5~m_>2p}-peB=rR<Q0ENneoIc<5I
z>P)noz2u1r<<mO#l-o2Dd4|wmG}mv(7@n-yc{idH?jUbWUWJ_{jQsk|OpCB2$-0`c
z9p-cmSm*g(^R#u++{<xCd2ee+4(n$7>u9sk4`5ERNc69Zd+~e2|Cj_PkQ`S~&c*0j
zKb$0KmZNrRP}guBq%2HCCEH`&+HjjY22WHsNqksNC#S>EE{CCgEDUQ|HFoKw$`d|K
zR=|X%IyG&<eo^O9?>Uji;p#2VQhi%J5=~TeZhc%%nn**zEQ^3^J#B3;T{7g$1!Ht+
z6^B!Z=6ZXlq@ZzW90P?zbrK~Q=A~iS(<}v6#*o%JTMjqNOR~5^l<h|}0ehsc`g_6F
zy0~g1IRz=3*S<6cN2Y0DNeM(hJ7r%-PQ5Z;w6*YHeTuRDoP;!K%hzq#C#zIe8uVw>
z0X{lkm^<90F*M4!pz$u@6wI&R$GoD-aPK_^I<Lxn`mH`O=drM_VU{h_w?YJde?Q@D
zhT?%INbSU}#d?UWD~Apt71l9j$6^Oc&%&ieD_~ud{P0Lq+sw{|Kh)^+UEt%`XDzW0
z6!w~gd=$TbF8+MIuL`?ghh3+X=60`4M}A8Kp`Mabn^KS3C^*|jdX=ThMnOv(o$_y`
zor0Ej8Y)3`1>&fc;9M(hmMW|41TF2<z|EDWg0>-bI9X_Bt$9nOPWq%$rA1rwHBhNi
z*vt52%Q%HNY|VD^9=4_*r$ZT6A|#Rb(}15Ft|u12<pgb;q#Jg8DuVNkko`t4yg%8G
zxs3SG)-2)2D3C8J>?`o&V+7?JCHsPwA0lYG8L}@bsTmhCMq2a*72%b(5pc42R|sLX
zk=3w%A2emG4fG~uwF1338~t8oJwPwopg&#gDzLB4#a^y=2k2L=Y~Q5*R4DLzt^#jc
z*OCg8e2V{}TZ?)!tv5QIy?o#~pdarx7yF!M%m;4K#0TqMUR*T6-tj%ryVY$yXrm0;
z!Z?9nXKg<@e#SUu#iI8i-Eh0TW$r{AUwLz8nxmHCj5J#l=)9m2C(~)3>@A*>!UjB_
z?p0EmVVqV_M)j0~If<ef@s}0ka1yLFm2dCc{iF6(k);AIk~3$lndQ5kGPI94K>OIp
zPqY<WtZOPvPyWn_PKJk54v+kKRe5u0DrB~D?)6Q}9qiC2T%G+GTwL;%<m&$k$<A}a
z$s8^#+7N5=Y8Jjjs7{v?HT<`l7~>85-S{su&Mjd}VDAy<@6N2&pDL0fO2>!>n|=PD
zr*nxOW&;ia7sFZ?1Lu<GOy1UnH)l@jv{$D&t82q=I9Op68)N!x#i=tRn=OF4Rl(*l
zTeD|}kUn2Mib%%6(~dl{+UTN}4X&H|$&9RZdz(j<t~6=N<&2uaT+WTvRe#_1K+Wpb
zq*2TB2%hYE4k7;^l*!V&&gBEuDR|n=U2Rk1N)xT;ACZuR@KFR^c12ymRrgCOgaM)<
z!Mv#W>z^cmVr*u*XUKA^Zh2i~&N<y@-ZGg?oSXjT%iuCSO~zAwv}!z@4jPY6Gg*c0
zAc~&cIddnMX{YIEjf?HSHDk%xQ(i9rgXx%Q^u$7~aT`upoOn^p*5B7g#peSzeqwR2
zmw)kp&Vjh}-gE5~XJPFW7irxT&699aJI7fR*UmAB>W^cP)$hj*o7T>8o7CO_jgu^m
zYA5Nq;jDI&Zj|b^lk~!DQ9DV0u?%V_8M1|6KS}D=-lZ6$)w1?>VxHthyxLhhvFp_z
z%V`uu;XhyrleB)8*iGxt*ueGT+Pg{f+KpNLz6`S^tG!X0quBN9cmFo@|3OW@o3r|-
z!dBTTYahX^-doDz+H+>*J%8$Z|9~dWyxQxTbsHw`wDu~{D!TtCR(m+DE}ObpP&<!3
zWWn@bjLz+X=#Lv@H85?6nt`7-FZ}dyXjYDvSKq?`n*M}^so5`n9tP14{3%QQ1+y<U
zzwF>9{>Xu_*LLLPTh4keV<%Z0M_GRHdRpM-e`z}gdt1i#GWNsN4`-UWa93mIyvFX*
zVL`$gz5F{$Jog)-=EC(pc=Askob5nfVCo&~GWLe9Hl8@<a~7qnokmUxoY<qNtU}4>
zM~QPdVMdZJ(u%T95P45h$_}T?ny}b^VPBPLTDSbPA1;gQ>f;DZ8qU_#rTZmyn&z~x
z-E=z;97&$Gm1pGg<`sRKdCtN-hu%p%%NBVHJ(^7YL#CgyMMb97&p#_x%Z?<j$rINq
z#FdLjM^b0-)M-YUyC`P<EIg)4i>J~qM6OpbjwG+mlh-cfZLS-Rq_5+EW7NjvMlb*H
z$Q{jxz=@l>Uj#Ptp8CvZ!6dnK7wmXda4f8X>-DW8$@6#?w+n~w=6=Bb1N!zgkt5Gx
zk_oqwXhjP1o-m(PE{~Q(#*=6l3XdvpDy)M8H}&R6)8})W@NL4*^DiGSeNWt>c)j#g
zHWZf5k2n?w;=yFQu5cuU3t>Gx>QzY+3Fch+IC4mzA9az+?FtQe^`xh(%7EN17C(l8
z@3Etct6mG|>QpX<8_prc8E%@!)!d!rpZVh~J!0;X)BO#kxoN^TY{}g8h#H+e)lXkn
zzmqt2SN{Qd-!rJMyO?7OboZ_-G#$HGSvYR{<xL2i$`ir^wc{k=HI&lkemG%o2T0>s
zIFgjN(GUxdR=MOj&cE#><wc!3Q7tQv2axr-eD?jiF&{~r>+8nbFg(naqq4|-v-VRr
z2#zLC<Id-da@t<bM2@Ob-!~o<bIxKw=;VbCvC1c@&)Bc89Ir;%@(@?ws_KAc=3+4T
zkEnxN@gG0AVR={Pd+8Bdu_3&uIBpV6-cr5ZE{mjdmiX^%Qdzf8jxXAtttBPj+jeo;
z+bN42OJ!Towl^DGj-;+9teD5u=Wwou?0jT#FZ?7unz}mIB@dzRg{yDq&q6oN;zM*h
zPeOg=@>oTmEod7DT2hl#*A=#ngXr5Y?dwwqr->D`?thH4-;K$;qiM@H@|;CczjR}`
zbi-c95F+a5>4AVQ4g|E>qI?Lb?H<kpVJ#N!fv`q?FgcKcA3NfZV3_?b`j`DKCd=DE
zTo&Cgqg`x@as0(H*!#s#3QhMDXTk!1k@rF|qQEzF=<DT(&|122Qe3xc#V^e9!|;Pa
zT*zD(TI9osQ_OqN1?}Qzz#JLUuVtew#h2B!9l`E2FG-TETRX*reB6}4XzDu{#g(!1
zQfx8%hP0XZ?C*5f6Sr^ssn)%5*;|$yugV`EkYh3Ac261~Xo3UUY)9i`O>tOx8_TDn
ztCR@==QzOD29FQ+hzC2Jy8>kaK5hL_U_pq(%4<e?7DTQ9ZAr*k6a{>+m<z_~dCkp)
zU?2FsXr^!jH^I%Adli?xH87p%be#hbG*2dzdKtFEYMmUPo5sZ?-}<^FA3DW@Yrh0<
z=XE?P{+XO~V&_qFdRil&B1TRDlB`J*t-+srT8@4qcL}{E(2xWj+gT5I#ic_2v;2Jv
zqN70a|L@f6ZCOK9cKe`E@wKOuZs+0e>(9mT)-j5SZELdLc)i_#z5VwVy`_ZSoGwzc
z%f{KP_-%{X5n);#=0yu8DY>Tx4{Pp|Kqc$aPXY<IKK()i!F6gND&OoxZ<6+0D`3Ok
zjPQt(#@u2VxUT%cp}>~h3mal5X6}=uDSU9#`Fbs^kjXKnKau3{@ElyfCRiNUF?#XV
z#7~xiyV@d5MF^W`rKK$QRlwnfxFA4EdK;oCxYkBU7}!~I>8i2M;;QlbvFVuXY^sC~
zTl+@Al=OCm=ir+Aj>Q4p)f-AZEto#tpkT_SPdD)#y!7c776(qBEiAry3|ppd>m4!r
z`tfUpM4sX~xQXmyao|MKi&wfC{Y-@L`PikD8GS{3xUCFmsFEgMQdqb)U*VBpqh$c9
zR{s`WL3Sl43i?PM8aDVI4JhgD1CoGi>t7TI>?n0QU94E`6*5-pP+<$E6ii7MW_S*+
z5pygK>;=7ewQW6$5bPWw^}|eZ#X?`G62K-u6JaHNj!86Js}lkg>~=<(ACQfDQ$hz_
zY6=$+o846?r?+V+V8d!{Jfd86YPPWqyqeS$uQ6^<9U%mNMgo<L|C~U=O~DT|5ZIJt
z%2#^Mrf@;iJo7_0kgVMUC3M*0-xN$qhi~v4T!V*L9N1ssqNaW(+wa`VL&LVvCRD}g
zBj4kd#HiM37uP?*ITtQX8oeNq9G#j|6>vE3j|51`*6@U;;5LQ;2?P5gURL}(q=4+p
zvkExuOGbc{^yLLj!S&@82?P5=E?sS{E46umz*<8?cXV<t7&?-G=Yi2gfq)KB%U1Gl
z2p1*SNBl}9-&Vi|o0V}QtZtiwP{CA@OIMR6TzJ&`vK94A9vV*7Pc)!p&HsfY;MV*L
z6bNjmaD}jW!6a8sjo%8`uphU0L`g&bU>UfM+~H7QON0x1#^)g#WKTSNcOsd=36_DI
zL54$tGe|95?V@Jl1~rw;|D!xK+$2IYproG>l7MUH5(NUg86!s=DL*n5aM+O*0aDVF
zcQggh6;o5`X~5u3lK?3fylJ5+xWTuOFkq!Lg$sDQ51vzNr74^vHDwRG+cI>q4BQ;{
za42vJsf8=Ov?*LeGzQU&<T8W#Qw1Du8kYn}NmsAX6kJ=ckub2YH)3Bi$tk6ItAGu=
z@_<K_H03Xrf$NEAVejJ<duUmZUb@=YJf;2)PW_C6DVh8^o`aiyABzLG33~CW0Z#~o
zkF)E@?J874hwY6in3DD;cn+?;DHaE|_XR&*ldV}PV1ve34P1u=hDt76smGRZt<S!C
zVR7tFBu8$`R3(6u)+WNrRcK2*^DEzgMG$_DN0ik31Ixf`f>s}g0@q4v;cBfEKTC4M
z(oA**-MUnRhmE}<fl7KiB#?0J9if3>hlLAsJ8!*^^5{X80Cq_@^V+_93YxdkOIItl
zOX{|`4vq;>u!q8>LE}31UnKpTser@YJrN)!+gE_5;Ciz_!oa==m-w33*;vw+SOFV$
z<pqx@Y04{>f$PZ|4h6R4U11&|u%x9Edpfx+wwfdwUMgD#0Se5g973ftZ3$N%cVCDk
zWldX|0c<lZ;aywn^Zg23Cpu^#*awO7RTspMjBH-DC*{Do5;~myUldHq)^>sC;2J!@
z;=umWi&yOxu3?%x?<yhNd!vL7+xv%tDQWK=o`Y-eJr)PHmtMSTuXr_d6t5)B70s4+
zUi1gewq?p!!<$e$aLM|>Xgu6HF{NO^^+FD!n!Gt;a9F?IQmT49slmgIKO%ujy1gWj
zaIJnu1HnE^l&_kc5T+s$Ccmh`!zRCzK;=xfb%mZ0lx<shL`lspECa7r+BOaatdh2P
zI=FdTu|k+VJO?+>Gb|1qD!q86@!8_XU3OoMLv4KaFEx0$7GIG-B^|ydkZ>*jjRt}}
zmMC8}S-57~${~tlwk2KuqlgdN{FjC*>9cS_b$h%XG(oh5tEq<k0<=9*0f%!sCqPOj
z)JIcro6RE<25vOu($yv-T!ys@fJk!1&5qRIVRI7_sHD9qfrM*th6aKyex(faWP{$7
z&_RFN4N8Z`%UxT;BZ0|l3zuS>x3Ul9wJil~IB~+oN^|E`p=7;XC3INv4+^GSOKkV?
z9NfzE6N>{^CGk4rL-A50Npr50&|!0i6ii8TMtBacIk#9G*c|b5C*|?G3W45Z8Mt9S
z;85ToMaM9=;4{DXtk|_(eE%hxvoV%|n==oG0_TicxSAy4a%1a{AE%k@DF^MjB0k*m
z0~)HNy$cEp*WwV51lzns^zAH`9XS&vbl9R-3Z|q%Z+H%_Ju55@Y!1D6r4^pi53t3#
z&=&#QC*vfIUD-w13srnj^)(SyuJ-&UvGC3~yCEQf%MT+Fz{fG~RD<s1kwI%5#e?sS
zF9+YJ&Z7<<d=IPkCoJT@Imqm<zp`#>n-}N+4bByxlA6y`de18L%hm84yxz&xu{dDw
z<cd$xIti7gj;@Ji;D%}8P~ae`g{$>Jc%#C~%d6(8O(5Z>O1$Z3`x*-cwH*QpSM4bp
z2=-Q@eAV6_;uOX5-69J4I>U2t({+x;fwLvvFyB?%+3NnpGH}EEg+qaZ6mLe#3oCZt
zmv|0tpjTKNI8^a%qiz%guF@Ve_l7{i4R(kIf}<5b2HK63W_|7-ECV;rI~)oer1%_=
z^?MB!qWp`d;D+g<M=Ur}#Jem))oIoQ&%uqAVR7J4#Yc;rs8!rKl7Jhej{<=s6hAc4
zaf>&cD#RF|DY#KCkT7tZ<kHpIMkF4=-B|57BX^1C;HK&siv#CMxN_7giz_zql)}Od
zH^U>r0ly+<XMx(LB=-%^!3}nW#eqYm7q2vgaRWIDf&BE+ReBu*&{VN%+(c9GoEjTQ
z7&uYFi(fl0o&TrS3db!H4L4q!00qY^zLh-4g8jwCXBA#5ElrQRNCIw}dMFS$Lg8g(
z`9@HM2!9|6xDobIAaI1jD@fxiR;=<DXbNtW10)O_=M|!~qL<fb3T~XgkuY$a;@kPx
zQKq&8Hy+_RxRKssao|vemyh=Ej3ue!?&k45iG~~S0|5$-S$ubY=k?or?&*((7o@sk
ziytEixXJQRAaI(9WvdBd;v=V@6;m`tQ*e_sL&Csm5?{!ks}10fNCIw*Pbd&L!iBi3
z(k0|LL=tc#j8GtOgu-i2{X)&d7)ij5FhPO95oY4DY978I3AhoyqCnsXiDj$Z)e1X}
zSIE&jo`aVruOU9@<|K}zR~50IMj+v;)zLtpv7Ydf)VffQ)+CT{qqWdLaI`k!R1T#V
zQh04F12<0bW$$pVc+ul^@ElyNr&t`=65++KF-+BNdwFMQ3T~k1NEkRya_LGR>WT08
z4%Lp$@qS_%xM})@LxHn|IeucSSn)6M9Na*!usCq2;+J@h{6OtALhlC8!3}kY#eqY;
z#cyk;?tJs^6|lj*Z=Q?m!r@TGw?gy6iWPW*=is`^usCq2!Ye!b%uUrN4|5U?H(;Lt
z1;;GDIXYwuUn$-IO~H+IfrNqMB$uv^R^lV+hI6HD``!}Ez)jOL4h7Cqf|&X!Ue<Ui
zo`V}`hQ)zHeMRI+ZI<?iW#ERn!l8gcPMVbM!qky!Vkx16W7XsYy&VM!cuv^;LC(NW
z6>wPZHDwb9S@2K^9aj86+e<;#j9Y-WF8p+u#{1XcCoX<NIa%XG0UOThBWY(hS@1#)
z9@hL!*)~U(oGPKiir?hB8-ZM=DK-mGFf%Fpc*vS<C3IMEm$K)XtoU3B9aj8{v~`&*
z`BDuY);z**Kqd>mQ^1DRGSY(}WWjSacvy2lc@~2#IZ{H06=(QID#&`@6tF?HQ=PE8
zoGN!}s({0K+k{<uWW8PVZDKO?xjZzSh+pU%zGSVJ^3br>5&G6GS?irVG_2KAsbDbV
zjJV^HoP<YJ0$6v5-abQC{45U*Ykei`WFf14R{;n0&Kl@@{ZzHHraUyPwN1J0PL|sx
zY*-|NpR0hw+4x1-ct{p}se}$I9ufBsl11OC62Q7WrFsWr&d^)A$ys=mhlaI==uO#V
zt<Un%u+~??_G+@)cNK6@?_4Ks&!H-wn`-c|<~C`Q4Ow%Sa8rs5ey#!zr(=M>H$;|u
zt$+=y9Z_!bkoDdvp~H$jwdw|g&hT5O$Vqrqz=qW>DYxOtdJ`pdSn(_IZaP`?yD9;w
z+i&1+3{oZgO$BUNZHuz8j;yy!+0sKsKUYGB^C8}EwRu6Il;Ue8bXc+Y@bZtByhv$&
zP{fB-yGr#A#$<$@ljJnaRls4rA$|iRS?;p}HmvrQvJ;W4_gx7cRQza&uRzx?iI-9Q
z*iu4=6^l2rZBFx-Qan>a2Nk~`-~>mm>_GyLr`9-|PTBf)y>*(!Nfb9(G%d@3lFCgn
zniaBFr~K7f1LOtz1<M{c%deKX(X?`NO{XkXZj$L2OvT=t^?7@{4^Xy)D0*_|%$;aj
zxtCzz#!oEn_42=M!V(agUkNR*3{g(4S*X>&%H2IsM4(nCKb{+Gx0)Gln#S#u{D(iz
zQYH_&{=C1Z7Fp4<SeCJ_mb=e&ma%T`*6m~;qSYG9EcDXMP1&S4vQf|L?)AqfC7|IL
zOE;Yts?zz8%@*537mW&2Gp}a(hYFSJa{KsFlf9*_W$eG?Dy-}LFK6LL9QR2>u(@Tu
zy=4c&E>DU)30Ku4IrH!Ro7~ub;;_XsU9A(e|8&g)t}OorbD#e$FA85+oEm3wv_Kq|
z*)yj37xUa7tOxjdF5uxC)%J6sX8*H_tr=<T`hg$LoDx*JlAA2Qu!?WkLDRABgAWQ>
z_LB$d2#XXOMTXTCa;o>Hx((BqxeEp5&=9ws(9|<%d}sW8==|_>nzfz>q%2<e;YU;0
z3|Ly@k|p_P1D3j9>sYyu;-GabkMclx+mi%#Mu>Cj3=N+AMa#s@zs08c6tMVN{=T7j
zaX8g+J<gO}?!K<O=`EJ+JfzfjgWhxAC+O_?yX4Kh=~+xxc5W><alE-3{~y)z7*mmm
z0fh~C+TC04cbYmFKKDNo1cZ;(+Rb~`ZmaEXcfaIBNNXk#n#8W|ufHK$i--^wBs=$0
zZ7O*l^S*h1Jr&%}ZeDKq4WF>ZqkXp-e4ktoet;p{q%J2bl#Vh;8BU+vY@LSuB7dV7
zj~+fQ)?WwFFJM_2B_T*)NQv#tGnoFcz;x_^zd-jp+h^N(sJOGAQJnI8>j=d-xtVO=
zE}nJJYex5fw%i1676|;LFas!NXwdQgp4@o>DFTesb;y4o;9-Yg^UeORV&N+Y?lu{k
z$2dgW9qqAqL&G_=77=it*My^h6Ck%`{vElKFW#5*84ZPr4k@|UxzYX)bl3p=X^c7`
z<Ur18$%`(;5?-viDKByuPk8B+#xV(3hWL09qWA?JGP0~oxjIX;HSe34@WnTW%HY9K
z-GSf><Z~He%&~GJ$l)O^Yj}lG9I^W}g$arbayy92lAAvjOA{E!y|c1vSXoX^>l*PT
zi42nyPPQzOb3dR|T!8R`KCKg!_U~*qs7`}|+aS+_W07jFQggH%%u#Yk%$tcN1Du96
zoJKjPYtsLPbWYk&mN9qhEJo%?9miE)#8tzjD#PkG%x;k=DRIb=K`T}Supp0LrjP8{
z<1I&CLqZXLN=<maTN77pk-n)2r%S}}FBFx6EHlT|f7()EN3oVd%*SM%_J5FGjg|e}
z$kTM4^v=q!4{RSOS!cbI3hGHor!z;Y!hS(+Kj~Y&(;C+mWrIAZ8LF=*jl^zIhG751
zE}OD|8K<8%(K6%qC$8drdlfGzg&Sj>j^+V#;ENUne!`5KBUP?@=A!-Hwv#tTn#q%X
zHQ)M`85_d-;?>AtkS&^W^eoBxZ*9Y-$neh+8z@`Dri5r@ntD!JdQ;W2GSea!)un1H
z_b}0bd?KX(q==dZVMbUzHeJYT$irptv~XSYx@U%p`Bhza>&l{8`o0_;_RcPDtWxh&
z1|R#6u1S-R84(#6sh?Gd^k~qStm({VX@p*Tr}a`7_viR2g?vr*JnT)%J?7P<9FIq>
zo<CNG-#2)u-l5bvc-qSE*l$2A3zwdjvfD3QUSsr(r~r7>X?fbpYcpn9S@pD()keGu
z<<#p!IV}M1guM!bmYSeITNxcMno*Bh)u0>YQwh5qq61xJvxsV`qjsZQDuI_L=s{P?
zWD(s4N?|zYKzUSwJ<553p0ZfP9I9jLDThT+NA-Mll|dEI<G7)z{HcIehK&xCJtgep
z3#_Z$DZw6lR5!|85!_Xe8)s48RJc?sYe5IfS`pk+w}Pf}Rz&q%U2KhJx(FJy0@aWJ
zR6r}vS6A68!j4-cWo_lE2s~*EtfNd7fiGJ|v5uT-+7h-Sw^DOuUt2jE!$!=be#O^S
zhEzbydC~7e`B4Eb+tt@rc8aL5Rq>(I*cY5>(J}}8zA{rp4O`wE4dq1%_C!F|nPwP)
zl~WBf$cMmDi&UVmd=!yU%SN~x)W?<%t)W~LVR4JwtEWs9QCBUh_imJjB6{4m%Ft03
zioi)r8|w_w3b3SAuhfAuPy}Z!KeNW<zX<!%B5r9;_II!^*Hw7dKz{jb4Mnp(6L7Y0
zsW1B#DK|Lzzw89t@s4N=cWYaj!kv&Lfm3UQl8kQvp@56q5DV(!Et;sZDv(vrmu(5%
z3#zocoa9wPI&Vlo?saawVT{raFmk7I`?X#Jrkg=bSqCurNW-#(hb-sl>22`2NAo5m
zCaGP5J9*!&fTHI$ricNKXoAJHBXsvj^Y=IfVT4v&$54OBmJhAa<|m<1o5yk(utaf&
z)G3Zsao+VuwU4uZ{~^L|ZhxY$x}6JCjSd7L@oV1d#Nzn#Rp#O}MbyU($QN?g<~`lR
zJ>9B3cUw8tTd@qLYTqK>!d+34<O|FiJc^eff1d3iTs;U|0m9RR7%D(mpegyxwhr=i
z^)UPaKd(IZBXD6XY6N#dUQsk0lh>MDD`VhP@~FsSV+(=v6A_8d$!7{GG={1)Ru`A!
z@BjY%JDJ}DCnOYkB;%N*-e>uv?p8UMgxfV_mVJ`3XQ>L6bNWdh?43N;s~G47)cC!8
z-kn7vVVpXdVVGq3bev-tPoHnm)JD(8oO&_9epqffax(r2KO&A3#QqfDc+0ar(&-}F
z)bRb<&++9m&2Nxm7~!z_^v+dg=J{3Dfct`sJvZMT2{M8VgiA=<J|<F2D9VMFkNFI7
znU($n8n3Et$R@7{c-p;KZFAZ<5T5%-_!a!I5NFEGh2%ooN&7`3+e@M%OO7Px<$nF`
z%0QqciAiXO!N{_oXJ4gV!7gW$>Foa67HsAwHkHHc&qe$1p!$ymL1T2uYF-*0juu?X
zf|tvg8;|hOm0p6HI|IC)&RqAI*yX2_@we{}f7kObEH1TySU51LGh8@3EVYzSx-@@u
zpeiKdEb}~91|UztPfyoeH>cOp4}QK(lg}(c;ku0Oq0EGGni1=0ilZqG#=%#X=YxqY
z7U9*?;M?SE@PkG6N&UqxXZL5s_4AWp(6p*_Eq6cy#~}*_7n>Q9KaN?{a2H*0x4KOn
zsT!V}JW}w06TgE#ndrLayAte>?GutT+*m+tg5kKJ@wi<qzyt%S^^)HLuYz|GjD%%S
zH|}YLW?ejfhLiq7q7drF+c07=JT@jhgSsF!kfv3N*HC$)eH<PTWCre9VZbtsW-SzV
z+N>b^K%s8daxq0oZ&nDUn^z#)x?*s+W7e6rbbTQqL8Neu^z93x8)g7K3aW&@sJL#W
z6O6E;Ze(9ry4Fw|X1Kb6gMhAWBpm3I%$rA|*e#a}rW;T_vElI9$OqwWnZ#tpd3Fz`
zul&d>j^A4{*>6%b=xjLD3q#^6^kdK0N1fub>iK@Q5Fjg3wl84gpS}RnsMN|H1P~Rd
zg8+y4)B~&(<v{?SiLU_sjxlNsmH|q_q~=crum{5%2GSmYOg*OHrbpiILc>5P1%`3w
z3~pJP`JLMyfY+@%3~yb%vwzW^M|1r#bjPrUa@iL%@(^5DeF2#VJnxX$R1EeOo|r7Z
zoMXutvg{L%MS%|Sw?S|!Bszy?ZQ}h*<;V|?#p=CJtbX8GuU{~4AtXH4IIPGq5`nLF
zDeLNI;wxu2ev@mH1G{7s8;;YNDd#*WDwf=}+CjESjM0_$U6RdqbLDMEB)g7C_PO^s
zR9mjJLGV(?aDxp_DYfc6$eH)amKT0$AG^1ciNE^sN=Epaj1cbn3W&<O$uNRWaGBpB
zaK-=qH4`c*+OFlvdPrE*E;%6tjo#IerDbdErX~6nmu(t8>Kj)g_6IaAJfoM9PCRV{
zdU1qSc63TL?#+I7+Qa;G*ZjBvSWd}wY%x39_(Z#K)pR~vzdDtiakB)I=lJZM0&$m=
zEA}1J-cPxn-?CxlnvU|fdOsNYcAlCdI*Cc#f8HI8J%;#Te9+s|7gkTI8z;0%&;8Hz
zrITTTy&F`~SU+x`MB*GTd48m*b!U~}l3JjDM2!d9BW4&z?ut5}59kWUXmbfi&Cy`+
zMO9!dh2q%BkG<+~l4k!O1<_Y1*O8+t_FTU5KP8s>p?Hp$e6z~2I<mLwea|d^q0Q`)
z-f!@G8i#QJM_l-0Tnisfi+(Hr)&HiFDV<~TKc&gG2j)-<FZh3-=-i^ifdjH5c-qxn
z+j8PK6R!V_@DaES37KUpB-tc0o7o$cumyPHQ)HPW`}DsKHkjZ8ghtG6)iT6b-`8qM
zEvY57(8J_*HN9n**=%k;ee`}_PJ6$Qm3_nxp){elY-Ay4EWR2>Ox{qI;y5P$E#tp9
z$R_V8wa5J9fsFaz|3hEIdnf=+_F+GLq~vfoi=&Mg`bsjveVHw;pRHf`?!|TfKn@PW
z#B(!7gLvUS%74C!EM9)OxElTZ=k3qv@jJ4;gc2*xBbCCi?lH~CBxW+zS6H@`mGx0=
z!c?&Egf21+$vDdAb3zSQ{(u;vQ4nKR6zu@nK4!T81JeM<ta#?I<b}k}WfDbr%>Ra_
zT-PR0KHKA^IVm8GUYf@q%LT2`yI+4VejY4HOlaU`hOCAh1xKSKkNqu)tP9^CLkLt?
z>#P;=tRKWHm4X?g!wdcq%yLGw(Pk`S_9Oo|mQf^d!~XLhv;41~|1W<drHO|k?9s$D
zj3=Q`-ogluPD$iUe8QX9u?$i-+(;R{2f}h1i%J3pYQv#fDQ1RwkJ$s^zmV7i#C19B
zD0zni>~p}sgV2XV9B@Ry0xuyS!vIo|0`e(OLm)_LKCKHH0m4aZ42U-rc;9G}r$C?q
zBauDfA3%7#Se7;~m*o+7DIqUBU8Tb?df#K8&`fmw1=BE0k{7%r*e`706w?<%$Dq9C
zMW&aIX{8&#YNfl5wbFglTUEa4ExXBFE8UG=W!~sj=B?h`-BF!%VzjN7FV@S)2UA-4
zu7Z_bzJ%%J`_O8rt?NW@d$=Kb^*K%Swufo1H-Go}Oe^05iL~-PE<??HdfUUJ=JI=@
zA6ogoXIi^=`yywFR>BdE7g`B<k7Vj5w6qeAL(P?D9Osc<!dJc1KYJ3TTJ5NPlO(BD
z!fCS7TWRj7<}$padgm_oBZ&gNgbeG=p>SI3By_~$%d1|-SUV$s-_y!CqSzyv83}&T
z%6N&X-l>ywnS@EKnK6p6X2v+vtW}Dc-nx1ftTbByxk#dwaVi!{H8V1Ash2SiHJ2m*
zndr3u4<yo@$H!%;ossHh%xBseQ=)Y!=R5_Wuh*_VQ5@*)JHE$(<{tU)CDFU;%Nc`E
zFXPXEgj$`%E+3O?UZ-*8U{0&w$Q{2kLbX;`_u+!l<V`Q7+)JgEl24Oa;Ay6$xu@0G
zx!>aq&$U{DzL-b8=$&Qt<-AUB@7%v4bDW1-^Eu!%Ef&PN)&d<|W2W6A4F1YV#x!@-
zgGUn1b$hdhg7gOtwG`@RA6{R)8^jBX;x}!?Vy|9FY#4H1E~0rzPP|9$wrr#pd1w8U
z1}n^nd(VHlj*o>_MQMcrvu*+ggXRQc=jzcLmMe&ZFqjh-L}YMNd^rL)V<f%3EOX9F
z(NM1<pM*ig%b50__;1h1u%$=gs(gIFMsO(coQ3eBd=}6b0=CFvKc+Yyy&)Jes+~qz
z`AvBU0WC?$r+B^mR6P9`^6{2Xzt^2z01=+ojckvd`25|UXrSu&I~%G3!tqCMWb_f3
zFsdo-Cyt9838bL8977;E)+VAX7XHBKAz?7;XqS+*>z2RGy|x2&0z@DJWG1TANI`3$
z?QPJz%pMH$6{_oT3K6#Zon0A17#Sw0uDew-s807})EMy}_cyk6lGrek%sM3*N<p3|
zAtw~W>lCB(wx3J{zgq-(7VU&0kWLZ$H=>)yA+!+c(Bi`pgAVn)@$8y2OWuiJ*+;uR
zOr?)f9O$v`G1Ev{IiUkYx^qs|O;RxpbMI0$8|yw{r%RHuoUMylpqEs1<-7xB*I|M+
z=U0}vbAx9j)JwcRaB~*gJ9-Y<BTxB$omU*LJO}U9M|>9EY0l2V`#|Pr;T21XXW*6l
zde1^EcE6s5SZruK3$fVtcMf8;aqK+IZ#XzhJ64;l&crMtQ=Er6&d#FkVioi()N0Z0
zEYxZx?HttQO4B*G*XuCnAm1#F=w;u;fHCCOjmr?{+1X^UW%!xWUzceXV|U@;SpJhn
zY1xBf<8eBkM$JK!)czjdrEqZ0C;-HR3Rbg&YN<e7N5_}h0d@qi+!=N^`$aqk2Q8fi
zU}!e1Li;k}6r*s60~N#Sm|!NKA%_C;$N(<2n3I_Q0*rY}R$!RNukr4{xg72hti0C_
zNEkR7|IO(A2(n-naA7|{agA%SVKBSJ5%EEREd~5Njv=9i+s)_+Pirv_1jUsitAP$A
zt|8>TPN+CW2n+mx;{~}9Yv~y%uqh-iH#xy0Khcj-n0POs$j+3oW#T{Obe7D6YzYZ&
z8sF3~P;p$)MIM2SkH7+a?E)6wX+T6*h&Y*pLQY9EBcS>23n_01gU1X&F$WS8*d$0$
zz=6glR-E!@L8F430f{P)Gl8SZ&HUh~a>G6ps@P^>^h6Xsx#P=($5nf$L2(V<HIiTv
z9~V5Z2G|mT0@lg^g|^qwvO@sI=AVU5rqI}OHYW&_-|{rr@cMRS<&bAE<e5`g@QvW`
zrRi2`H@IGG=r-eA$9!-DiP)DJhgGV?{GNf<f<DIsbVf<cL1`smK?Pu(gMtoEQavTA
zY+T@|^7J4m>LYKYnB^3-1`OAx1qxNf#Wi};dUI&FIf%q{ifIn?1V@0ILwN$5ElC#q
zOZ-nv86=g}yNDMdDNaD0mdl15ZHrj%4&<14H|jAcuz8UI<1tvg@hdFebqtI54Y)kM
z0qYNJwqN1_>+c3we>cGTy9Ji-j)LOJoprE)F)-j!7aY_9iU=~WfC+4+5n*g$0pYx1
zn?SU{fH|;)4`3s%P3%@^K;TjqyBR?N;bvHs@S?DYB7P`1q6Ld6B7g!T!p;6FF+5=r
z#ncxTQN*Z(Mg;Cp)pk=@M23N71l%l94Fm}c8G}R0Fo&>^D&7Swq})Rb40+VGZS|0F
z-s5U4L0Cu`ED#nFa%rg=3J(@iMxKL(l%eIIAt^Yd2o47eDPyq#Ljt-)tI^b8A?2Q1
zXh^sv)M~&pP{<;p87yY8SsxTrt%t#4s-R=Qm~zuAEM{>60T>f-ZF~E;0wiV`WeXOx
zJlp^Yx(-<di@H7w0f|~U<NyP^IXR$KYvdKS@Yu31kw+82v5oSq0k0eI;MF4?(BPlX
zYJlT!-$@LQFO_poi63}yqv8$zU{h<Ri66`Zuq}9NjzO{L2Cn?!TK7=MfI+!7!1W>C
zjzK2m#ngB2W-Z?dFW#)>JK<HBwR|_4`A&ETN*&)xFL10SJmn2?b%dwA!K#+=q_+{(
zGM@BypgP7A-$_zSdD;s*8YoYBe?~3kz377VQl2)_dmZJe<8{|^o;YB4E$4}&JlAn*
z2wSUYL1UtBLBfu|IIyL8lw@fhwOE=*EtbY>gzE@(bU&8<?#I%4VN@;UY460TqtwzD
zSh|ClE7sG*w=S@|ZDlQ}jQD8B<jrh~X6R;&^4Y2Ieg<NDhTRG0ayWz;IG_kj+4{27
zkkRu<7$T2XqdjA2GzM}ssb@ZT^5@Z?JSE4qFZl=m)08oC`ShK5jQC^z-+`j-Vypq4
ziyF`v8p8^rw5SM`_^=aIziKlqHk(sd><DLB-%G-fQyS(qO`?g2B+A6a=%VItVr~rQ
z{6{2`6}ThAL<8*Olt0R>2&dK*r%E^GE3*C#QtO`}o!mB-yR{<TFo;<qQ3n(LO^}a_
zA85Shu#uC6fu{r($5)hKD)jZZ44}QMU=fy~4BFjSL8@omc%gZWFkSRS@l5`E>MiVr
zVM;rNGAYPfb5a|tX`MPm)B>K=N>CBI!00KZyajA&3@ORDK2a4_sK|Q#tyOerr5f+*
zrOe(yfA&UKXx~OPGBIjx5zVI3FvsGbDakUtAY;*;ppiA?|M!vMay5BLlm;O|@@?Lr
ziqakpR21;-43GXsBm1o?_sATfv8*ezbzK?iP^O%)iMjB0C2@&-Tv2B~OLFRw%uZsi
zv^)MWGVWR{Lx=o>Ij?Cm?7f`9CiELk?&=tmYxXK8cX&FJdyD>?IzHO&vcv4|>i5^v
zq1CIUy?NU5SQw4b1nn4#ey!bgkostA8@i0I;J47HPNdcv7eEC{VQ-!BXJc;PqmgsF
zou0#GXk*VM(zH2;0v9<lmxdum<)S{vM7b#Yl}IIgtlr}ffFZf4$ALZ+sAW*F<Hf8&
z+?G<@uCRA~A3$}IxUG{M)^?I&#MG;8wW<%Ov39kW3UNKPq-nb8r<$rZUE9SxrMmY^
zyuNK`lkB-RdwbuIW7pr1<F>*daOaJ>=s_ZHU-wXDXzGtDcbd4xWj4zBQG++=z^l8a
z#;x8`vj?)gaHgq@WLw(4euh69)<O<9km@FxUC_@L%k<IieP**-@Yx1@(ggnL#+W`@
z-_q8JiCcX<2V4o$M~zCEeU)SDvX>SD@2dpsYg}5u{V#);7qqm1ldpnTu3o8!@90C!
zvJcrA4jhtrAO~GvO>T>>>wx!p?-I>|m^3GGXTc(nme54*C|K~3pfTWsT|!p`v9|>I
z{CAce1Tf?|RGvbWtjjIxY`aAb*IN?r1?6i8+m~SMc|u>lmU5%z47KXnM%x3&rn-?W
zP)p5}5^P%ThQ7J)F&yl9BxML^NIvLz-+d2!l)N;*rM#T>g0RneZ+YDf_&AF0pTJbJ
zvW!ooP%-V43hzi}S#s``%qvVNSj35_Vkk~xk`)Mz9myc&?=t?nX-D{DM$ih=0Q-R_
zL{UO1i0;bLuUqg`pT|I0>a&1&&U&>FHfD@IJW7n=1^*t*a#liK2O+m`;%Vk2xtP}l
z8IoTl>T|11=C(|YgI6m_Gux+0YF~*D@vRMAsC}Z~9a+P(J6gTh*RI5yP>klty`|nG
zHfBC@Uh{;J;kt|lPl*EAJW{^*<N3$0=jH##&dYyuUVe4H@|+SB=kv}if;fD4tOzX@
z+wcQEHqR;Vt9;deZ8v&p1|GSI%|pzB6)}3)UtvDU<SYul(=a*PhRLZjOs!Bmv-T!S
zG>@2bMP~Uzd~1hn=;@C~-VA@7a`-c8wVe*{c-V3{&BKc<<DJ-YZ1kc$<Q=*AtKc%a
z6tg|-I3ye9(K_#61z8&6j|!-D6sRMYRh>)uDZdx6Hi#M;;hoO9Qd#6}0Pp*%9hawU
z%D)Q=cR$56t#<SAd%Pl)*}{|9?uxo0?-FWk3m;)S{XscwRNtU0ZyUG!e!j3lQ20s*
zrPI{r!j-CQ&x*Zw!>*~m9WC2FsAXUH{-$MP-`{T8xJzj^n8N058e9FWdTE_W?2~s@
zAuBUuW!2;Z>Z%cZ;dt90e$J;tHtzt)DbOpCJr09kb~TLtZNip;+Ht<GX^r>y7IRUh
zgRrULTV9lksCq2G;rNw|P4Zgr-{rLVUW>SgF+Mz;fwPVBXHn=4zPz#mH+UTR<8fIR
z3O8@YXzBN9!LHQaX6UPC=tEr(u9wqn?KNl`a+HHLUcWEp`xZ&&Rfk1a!EkFiyb{;S
zP~umdl2%OK%B8-U?xnu2{Q>>jrH`kk^~!EtRI^}jXW=(jMAOcK@TkpPPkMG1T%rGx
zW{=)a@awSs1mW+hokOeAxUugrx(B6?jHJr4wU4-bLdl%>!{SqZFE`@aof~m09G@;v
z7wO|pf2~>wsk(}jefz|nl)*s*hn?i4Q&`z<ZG@CrJ0yd{_3H4Ka=DZI3t8R5XxgQ_
zwd=iwKv}R>e~naaH;8iR3`M0Ee`XgWihdc05Bg<`5FlBnz{UB8Jq2#X>K8$g56FIt
zqi9(AeKOumP-Rrowj3ZfSM2!pr`c<FU6Tuc)jGXznm*2ux5S51^*NPSE>JyZtL|h_
z1KDZD_9UySBRgokU8el1DcpDe|Jq!JhtGW0xw|}Y)574>rUhKLVBh19yBf^)UWL6I
z%>l!5heRp+IM7P}N`kV~U-m5ZorH@+%3~+>zKv**5r#HZO}Lxd6GHEMbX)d4HjP)T
zAH*9O_bt<g_B@!|dD!YyFFO@iZbGQG?e{%Pxi0PNAqBk)&{B_$UWOxX{=Fn6{|C1+
zq&l`G(g%3jy;s|En=lld{t+N<ehdzo&}m%PcBe^SGy-Ho3=)+@8u#lf$$;a8*d%s5
znIT-H-E&rZj$}BSJl;&in8!<Nu{Q3;H^u`5d`(QFs!1YhBybu{L|{SFn09X_LcX%0
zCD!(0UE$`@5p;!#Go}EvKuf=6i9$f|U-|9}JeFY;Acn8V1<U$qOb?fpSVPL7U??wg
zlAVF|G|AZ&68EM#mDf4WN=(EKmpi5fB~}OuOwLDk&di(&<%}Os=VzE;mM7fQcAO%H
z%7E4+-C+e6X&Rb#YZIt}&q{upm3$B3^VQ@A?BjIBJ;O-TInXp0`l-PibGPtrujBfM
zk^Yk(D@GGoqJ&Y)o>z#3Aj2Z?K9fLY&=GjO1ky%~;|6}J?t^-{#LP4bN>}J!(wQFu
z@N*7zdue80!y$|2Kzk~EJ=4qK_0&T9<z+EwKX$o(F4-e0YTS~kA+M=q7xa`cvQ|u>
z6@syBif~B=PV$g|1x8#zN-z}Ct3xO5utCJKVH15+#(4&t_39t473!Gmgc2E_WT=%`
zgXejAp6nz<z*t$C51s1#QBQ|P`xTSWipkJ-u$y%IMwR&tbIcx9myo9LXWf$;yt=py
z?tcIMTF!q$nKHv*SqkS8$91Oe8eo4<aYP%S?CKUgpzkZ!xrPoZ3Ys`EeZnaS=u=~~
z_D~S&Kpb688;sU&r(%+(6hK=2^O<b?R53f0m$$jj($Kq(wC(EeYiVv$Gfr9Kzt{6d
zUCUIRcYj}xHKOKl#~K!3x@?3W9c*8-W=D7_h<88`@3|lovH9!qxSb1`uPRc(WxW;!
zPK0SiM9@fnK!UQ7tSk!Eu&rVE(6*~U4#hh(JU?$D^4rjCf}fhrAW~tuaL-mLgK*W(
zs#KW^xxJRryLGu@v~0;W-blkO7{=jfDL-nR8r<L)^ihf``G$iMRp16y`cq)7Ao!P8
z;CEg{Z3M3i3_RjwE56^ZNnlQ4*izg<hZlLW3Aa&OhP62sgp={dHWDKY1N)+>o&Azp
zyOP=vZYm-gP<8HZ)!7xsD;03yLr~-be9J{B?~g}w@>K3yPNc3MM{M6~NZsr_)$ERs
zGHS!z{CWx)N?Mw2r)gxqL2QLtczhOnmi6>Pjg(M<^z^DhRn=;0P%CgJESV!SPNDOs
zrUH+o<Fyie;NH_~?`PYqzo1$>zC{j9+=c;$hViOLxU>>ECGL0quRoIA6Xo0C+&AGI
zie<LvJoMtXq^!+8s>@R+KARnv`oqxFhw!|ac6bUicfLAJZFFa|6PDWM04AUQ0~{Ql
z^w@?8)^T{+&3##S<2VlPx&O%8ygbHPs?(jVveeQqI<hU>N@UB?l2rQFUy|A=+Y||q
zo_o*C$)qyE2NDE95Clm7@$TdHF2Bpqv)R&q{u=x~za6~#PWH8RvwV|}c0rm&+tpn@
zb$xFdC-XPUrhg0l&nRC<+yCQJglym+gBZ?=<uXhOvF8uZi!@78Ymg^z;nvU7Fa*<D
z(Q2Edp}$SGaALb;oDt5!21@PDip>s8l)Xg=qFn%%s<%p$0?f*b7U4DrQ|*fF985Kw
z6S3#uQ5(fk9;QJIr5nf5GR&h*&2V&-&|{j+=q&4j{yt?$)*w!jw_qIx3kwA>jxs;o
z?DDUQTGDKnP(M@cEUBGs_=zHP389Um^k(6znanWKNwnRDsb9DG7_GAj=2j^ye-Xyf
zh7M})*Y=?K&ZiT?pT|iS3Q64X&n~qlY4~15X_)zhY!hvRJP~s#r;KHlt!n2_&$pG~
zo29`#%oIN+Kf|r`W4A?q3v=n`d!k$jzpn<(8Yeqy`luk2rKGbp&4h{kDA7@}MVLk(
zVZC5jgGG=BezA>`Er7~mRK!LXm5EUzn=q<yTa<SF?&FuhQn*2$r;krWiAVnAjQk$W
ziacchw5+QrCVE5vnt2KNGn>Wi7l!(a0@~BzT{?dXtl7f%-iss;Cwbztl_h&T-d1N9
z<jzAt{=cd1kDn7Zb+VRhdf{v1kFTOIUYw8#a|YZe@<WM(*m&4o<3YJmg157a>F<9(
z|K2>k`0kvn@lLYK+(nw~+za}H{#L__Y)02txeexNLO-4k{c^r|%s`jF%dp0~G}`8e
zVEw{7B9>l8WaK)HF4Y9nWU2$5CXWcz&nR9PZ#2_{J@GKVP=k|nwtC&!>K&V{9F&TP
zhyfrXdSaGFx9KYG^T@BJ5BYr}9NvDoZu`BPWFEviZMUW(VXeZgw+Ls&inTZJ8GD}L
z;e=h14=yMP{jFwjuF8N;I)0id;$QUPlLc%WDtDm#+&gDK+3!kB_B&y@tQQxx`vU6D
zrD}Ji;u81f3c^FNH)3u#%Cc*gNr1d=A?QPbK283B7~ClftH1eT0o_5mFeV(X>81_T
ziTmSw7iJ3BV&jO#B5wFSL^S=fM>07!z&8<0HV=?q$iy%1#{+bf;im9AbUehO68Gaf
zq#tB?%kN<Z@UaKq4&QkpwJz^*{P|`_R`@iJg81^C(5kRFI^sAp`v{Q~_14IL*C1Iv
zK|0bq7UEt!LG|`A*selQH=ZHgkO)fLk!MIpESvTuB>R(aJBRh=1*%<r0uy)V1*%<-
zVFojdKOh}Z5}3F*KcHIn6i2{u`3cps9)XEF@)OdL{r!hxPkuo)tWQ|tuKa?I$#b!b
zVPo<e(i5q)#9jFfn)`0u7sS~73muz2p@}>6FLd@lf9+sHqr8beE-u`5)E<Crj@m#8
zrP$Bym=xQ1ikcK{3u<(F#!1`{8_K1pA7U=b8qw_sQWIv%`+64nx7aFrL-(i|xMy=v
z5TuFXC~LtI6r<?F7xuxKD*Me2++}tyl+h)7Y!QPib+=!(0~WFP3)F|6ZKR07-=IG9
z?(ak_Zj@Q{Z@onLcgpy(4U34w14u}{n+XvM^(~~Dn=j(?3=&qK|1IM110<|opIF4=
zmof{vw<_ZCFQ^;6Zls6>XmM)w7PmM#uSy+K2$_qz6RSx~8ZsB*Z<X;?quByZuBAR1
z75#1zCkHeg`y65s2M@%d&sh|4c#sBaZ$hwd;3`j!z3GRW9j==4D*J6hVdd(xu-9i3
z;Cs)~!MH8JgW>(uKovGsd4xOe8E$-sQ)v&#k_wf}@KOU+B$uI@V?U`(HFt`w=GhO`
zcgaUQ4V?H#prx+$I&j>^YFif-2?~dP4AS1lF~@ai0y2i2|A}KKnJb=e4PLg3FwLlh
zpn`i*Rd1!^l4A<~Q+4=NI0*ZpI3z=VZ|{d262)|lA(z!M9gFidRMRzvKDP+rS{{IO
zm)j2D*v&xfbTg!~xiUL`Z;Ru#IG3$9_8D{$UR=vC-D$90K_|z;7YT*gk2acvl!W>q
zcc(X!-CVlNpKZah$;E&8;S_>~BN?c7o{;asxPca~Nd3Zh1=!6d0KzU^sa9VkxeXP<
za-;(*Y^=hLK*`w?;qRn+cKHq#MTQ3zHFPC!C_EQnmEl1}4P9SJ_24PoM9`*2(u^l>
zN|X4(xW8n$qiLDK4@G_*N?ZIuD+yq@kg6WyR;6EcYy9(U7>|DaH7mXkh;_BBU7F1O
z4PE2yG98y0_~$eXuLVsS&6Dj%nC9+Pnrs-2_dpAWF5M;hLp}bdVf2mGDs&h{r(wjr
z(GH`xlQ0_Hlx0vHtJ`cVWmO7d(k;2U%@U>*LQ*H%?E1)~e)91$h~rs6t?O}&>vHeh
z-}qr&C-B7T^{&f8furJbDef>&gDB64=;An>=ax-ncTI(sCn>{g<$gJ#QuHa=b&a~Z
z`sKU^_isb*FW(~_NaoH*IG+#)C}AItugPx|Z)!dGmzRfgsuWItr|fR0T;Fdiz24=c
z$>z@}$o%;_NTFoeE|?Qv4yZePH6l!Hc*<PPjm;#UCR62hK&dJcp5|OiQ%^yj>W^X@
zkI^D#5l<dU8|*%juRAIhgIFGsD}el1mti%O!#P`+gmr3@rbd&imsDQwoG@87$u2Tc
z9-1P#)jrRHsk5@aXWxRibKe@Ym>smv;^8Rj)BmPDw`x<+^{vST4Q;03f&=0PMb+3?
zgS}EusLeS7fS6`SP*xBWHt{BLK+N9kt1NjwSFS-F5P))x6#Ii^GkaUa+Hgt6MqHD}
zW~LnEnyp(Cy8O|9W@ppXf3^HeYrxh<3X;jY*eRV=>SN`gtM>6+y%<-CedTSNVZT@2
ztI~jWBcVLX0FSUN>fMF7rTu^$;}Py-z^9lsSVn0($*vWam|=H`apwfIitv&#%GdM^
zdVNX$g~O}=UWSa>II^H$g;-}+_D9dIMGmPqOa6q5wpQn85xjdzeq1sk9V^nc!v8@-
z>NK<e$IY<wFPEP4t2Dz=ZN|YeJ4|+Ylx&Ch?0=58q*MiZvfI;^_5ZXjkKt0*7VLz&
z?%Pp0Kf-xE<C>%SOKyVvFM4m^rwW}Hb$fS77Q{+EN7X;3XOvUN9}*v!I77tOYA(zn
zv>t@E;n+__Y$T&9(}8M+vt;oFCG}cTr3SMaZ3fU*XxIFMbd{m#y_Wu<5iAo~D7YaL
z9C21GdlqD*C4Mcy)~0*?0Am7h6(>O-gy`g-Eh5}0B2jX>qR@*Z*j+mWB<NZCYfq3V
zd^7ZJAH}GoV2h+5ZFfbkL|1-P`$gHDEW`^K33KvgB;{;7%M`!M)xNt()V{lXSNra2
ztM=WuQ0=?xrQ&yrd~X!_-YI@}pDKOloGliLA8r*tBx|+WhZoU@;)h>qLUgVY#a`cp
zYHH}*CW^f#>%Q8D55-LFL$Z3SeyBD_ou_rI`k|s6pHw^ZoPMc&_>!q9xO-OQY9@kt
z=W1VGB)OyZ<z=ke&dY7FQT*~<(U`f{o1NN7x;II(Q~UBZ`B3Z;ajf1|zf?3s?nA0*
z4A@zr;+J`#$er#Wl)m(cxm4`DM+~O&r{veU;-{ZMq-JTnDOtVW)IL2AQbmjCohRE&
z_0u%S73E6S0##vMMcY74`%8CM_0xR5R{XSxRonWI6pG8HN36IiDzW40pQg&67Blrv
zccI$U@}5&=eSM+#$f<q$a~-Ck>Zehx_~~z&{iO8ikW6k>hiEtr=gCH`3B!vdjuoxe
z@bXU{rfLEk-khar@~QUiBjnpKFI3w=>~S8=RllY6A!^@J>z%0iO2e0J7A)1qV#JK1
z;*=O&gv+3a)ml6vt%&{$)zoM7BTDl^(c+EIW@OVAC`xWjY<V7S3pII+uYz1%GsgEH
zVVaT+vD(+)i!jSor~mjVjF-x5_Jn@@BZ&99Da?8Ph_WcR2JC-)dg&w~8v@B_lomm@
zEKL=ZEXvsq07|wAQGKJ~4+I%K3&4=&n;b!wm)fCBW|d?!nlXr=TUILvl&%gKf$6r3
z@DGA64rXDDp`#U!2)a$>fI;crGcsopbOk+bg3#I3xJO7rHt-pSa7#m<2*ORcnT08W
zkjz^@0TDWla2C;ag`lKn(2te~N@~)Gj1ZJDn;tomlB}KxN-Ek}@&`#7N0`=r1Zfn&
z`ss3`0&Ff%8i#1Ez^?M7Ig21cNy#6=G@54!Ql^5NWPv3uvJgR9-)WB`rCON8SkkW?
z%a!ITB1oz7L%j)(G!3&HNeXojIMUB3#;8OZ&co;<#E6MD*5BnA(t@TO#mNjwx(!f@
zSg<r4)VNYo`fLb-lo`YY+h8h_mjB}i^{FI+wz-xbLCXvqJx<5d!lnRE8z(T2ho^;(
zE>8=cdmiU$QN{?`XtRsKyCjdZ<;d}6v{4zXN6{i>MQ!qu9&aOP>8_9fp!AB`NAQ-0
zqXlmlINFrfaU*FnT1Shd&FN(t2-+-KZG*f>F|_51fSZFworQ{^B|rUn71URz9kw=>
zxYu7XhImd79nt{k*AF=hT~xtkC^0ixL7E0%XyWQ{2S;2T_n?Tu(Tompb$Wy%2FF8q
zVz74d#NfyXPYkv{UE=Zt2}R7Zma)WO)5jBo?H5m6Y=aa%F+SH3p7R${!`QMqug)-0
z#8@RM7xWZ2pUWL3(uT1mu0BwK60;VAou?tUP+_enBgPs7MjUOIupJjqj2&l2ybV9_
zoQW|AHX6hzOTvi3ju20bwItLdA#DckHHWQBvMXkBG{+G~vxs=hAoUzoVNoJzL>PC(
zc{K2m9&s)Wd`gcxZVB~3vDC8&YWaC;;`D|=j;F59oKe(zQY-57V<>gGef_A8A)(am
z!ee8pv-<QMNsW}+Hq7#H0X}OS)loA#)ZlIKh+n#9RSu3a^|+d2?D@em-x@()#%JOr
z18(ug{J|27z+oD{Owy1{Z}7T3?na@B5SA$NGMo%OP8qi+%zhTGHo!<iO`e8}Xij#i
ze)x_cXWq2Wt}@6F<ZLOd)&>OmC(UdkdJ_PT4<@|UwP_tFdZIkw=-{Mt-U46PCVX7K
zx<e5_Zx0TZHrRn~2SB?8dHMz3ecOZ1%rCakxnBb`(N3t{w7Coq>edu=0%jP1W(Fc#
zz$TH-C{VYMo(~aS%wa;TGePL8(b&NZfxw$!m@TLg+JS^_SPv1PyBV9$;AkIo#vssu
zGSy|U_fsRZTTrk*S^RF03In<UuMtYS+$c5#!RCWRVZKfl&@-PJqPDK}+(bZd8o`=^
zfnW+<Y4-*XQ4VVmM?r>ws3b}J!&$P7vNZyt3E#ur+ZuvXP4FB&gaA)cdp~Lb_I7RO
zh_!;wGCpZ1WLe4JV}crkmj+lt9X=YtfRfp32pd@Uh&;gK;_k15h_nvdJJJ&HF3uhv
z?1ku@jfj^4GUj{!T{Zg<hR7M!laH+J`8s5o&<B<cViBCGZNzVnn+rHJF>A<Kgdj>c
za3WY{RO>A(5mldWiY9xEbd3HJOPy{ssN?dVNNRRY45xOvz!{#rT*J}iG{0MeytGAV
za^{HP$=R*|PtNXw(IC$^I^$kO^x@<lmlv)<Uq=7%^em}Dhn}8_YS6R1aUFV^KdwPv
z?n3bNET3G1p5>Ke=!blMxduQL6wm-*2NfCsW!||4K$(Az0T^}i&@~XMd~^+jYBR5a
zQ01p<B9IM>211puu8DwL$48y~bqvC|o5!vT5r^8XK#F3#7c#^{)Oqe25Ou!0E(AT!
z#X~eF4>}NK9=t9DJ;2a|pn35c5OsdMCIpRxYC>S$r*SuLUIU`epVxq>^XN4o>U?@l
z2o??1gV5BAI?rAMqRzL+Kuq@X?lmx){Cf?ICJ$d912@$sdwKb~7+CF??B(feU^Myq
z8W>!#8jn%u@9Sc)#%N+_%CyPr*T87<`!z6{Jbz6L^tNuYm-nxU!P4F|G0KAkJVsLw
zpn=iU1!!P2^#K|fO`QM&qdviH>jgAG+PVP^khXq61Ej4Z&<3IP1ll09u0R(A8x`w<
z&^iNM5Nv#{1A^814hS~V)&arV#XXRGzSad{r!=}CSQFh%sX^M;4hXAP&;?<23%Vd*
zni|_4IqQPxDjRo}uL+`SW7|3h4G{hS8V}OcJ?Mhy8l|=lLKj3=PujW&U63-<K_5iR
zvbFURx*)oit*xKX0BP$e^gyb53Ji#KP*<UW!qr!3pm22-8Yp~HswPTVccF_?)?etO
zu;hGA6f@E->oPP@xcUqY6s}G~7p2Vf(MQpgE?2*yfx^{sXrOd*nBXY(VO@s?3}4@&
z0mIjM=)iQ+)zC0}-G>%TTmPW}!`Ff6z;N{-8Zdlahz1N_AEE)n*NI?YoFnxjx;S;+
zhz3rlenbPOQ%8cqagWuL=mHsQQBz-{0o1KC(E#e!n`i)a>rQllI`t<SK;1eN4WMp4
z3I@nKT9=}Mv{#>^fwWhrVgw1j+w_jst>_?i>sK_8_Uc%4kh=9O8c2I}Ef}QX@%k1G
zsQt`s4XFKk7agd*x))t2uKq;>YQGLf18Tn>MgwZUF2)QL+9(W<*U4a@MuK`74XlH@
z84aw1`WYRp{W=;9)>u?eqXBkUSAzkY2<vMQXwE=fXM=%rdh2Zvh_0nncY{H86zgx4
zu-OZz_49g88hpwr=*ZO+mQ^ZOTEqucyP~cP*I~R1)B1kp@{LHp{Ns*$6HozzuU8S`
z{JOroKKjt#U`OAqFNk6<GTR>zn(OlY&A~(Se~>>4-o|v-LAG}PqCe<wP=>CU;dR;b
z<6NnGHDqd^jpj)l6FXtq^gZ%x`Z#<}uN<Gy_s0FIei+m!&s?L}dnvRwau`;>v`rC@
zD-$Jq%yi`2`ImDxi<HGb;^CE)PyP~g`Hm-hrMn~{d?o-st%8DhwPZZMY~ZU%F7Vl;
zcFxj`vh0FA9!lanllSSBJ}pX=X-|Z67`s*+V3r+8wrnjmQO<m3?Yyh)S-Mgd=B#C7
zLD*Q<Rk=8lsl35(vq9V(j@#81!_NWn8*=>EQ(+jEE{NrbV_Ck3gyHFdczPU9`f3h_
z<4~0&jp10{w{qz}t5$vt$B`;WYFcco;&{vaBptqEMZV*@<ifHm-VbzRfnhm;vK&_&
zGYq#gRl(AdOYeqO?qS$W71_|osXg@UI|p#FT*l_2jtOD-U8o9=rZ2ig8v_iNO9+=S
z<#H2cC~d!jaIzfMp<olT=d>{VzCmWS<(1R<xsGjMIR52}p9W)IUG+YnGWMj4tuDR6
z9Xm_KD#bO#1lyAbexJ8zk5P8xZ`G+r_&W~)N*(_J@E8&v)8r3^%?*Ifn6SBCAQzKc
zV1I5R6q`F>f6(Uk9>B;WjP6lJ_5r|UM7WUuqD;egpx7Si2{4AyBY=@*Q%?1f6NcN9
z%;GtaX*1~pL&oJX#4SqCz;St^S$G&mF91dp%7}%<F`Rw?yYx)M@EArvA*$xqobVm{
z1=I=b2IM!8&(A1cVEFtCS!G?U<vBV-?L05zT%%_?Rmqry!R9X(Z-7VqGD|fyLw%FU
z8Ts)<i)|1A8p~{e#*qYQEb{>xM<qZL$joZ_j624#29W*y_<FO8u>qMGEFe>}VvoLK
z_|0+r&<@H1#LsQ`v3&-HVF+Sq*9@^{a0y}OVzp!i;WE)ukTp#8$&brzf$CHQ3z{)j
z>`eBY9?4=jzCt(-@lnq=pwd%DWk~QAr}VMR6uM_co?t9t3|0p^qcDBgfOQ;gl(wMp
z88p0X46_8nY{Yoslwb$%6+Ytqj$wxNX;ZLjJkyg#466)2bs4WSnl*%Bn1d%6cBv}B
zQhcHHe;8IDV4Z)-P<{H8`+%PiO_+3{l_R6x4ZV;L(}O?Y;|=Sk%CWf!ml%#;synwh
z${l0?>^}gH5#cdS5{&fh0q7WvMnTs)F<09H@v|tur?OrG!_9{4#zUQnb@`6r=t$?&
zlwJ>jm`}C??#!s^Os(;lF1cX7PQw>zYHbgqCf@g_FviSedk8wbu~@kDhSkepxQ#$7
z)nj!(7>1MTk*}S9S%XJb%7z`O320G#s_%rsusV~@E!f6p(uG!EZ^>HwEly^bK1@M6
zKpD|;c?_p>XqV_QD2CAmlo2w<XkUU<jWBv-HRKppSI|B^ry+{bH}#o1{!!gehvB1q
zuuBWXM?cD|OfihEA&ka9q6{01u>Xc|nh;J8>^1-ltA8M@EQj!VY)Ydr{BC5HZbV$y
zpolSkxqSob%-~0J1p=lgw{Q>aCoSMPXLX<$j(1>=F5}qvEEuLgWdmkkV4_Dh_{f7@
zK8ZN;umeaEmHR|~VB|Cd56*x^2d1?A0K;$&W;kvc-d5!f7{;Ku{e<yE2Dj}{?iYcA
z*^@3bAez&30~<ZJmq>=#P^P_t1<_lE*aH@O4Ld<<IAT5YNZrM7u{>VYc}yseGkTL0
zhS3{jXG1wngET}PLfA2|PiRkl1L%`OInfgWY=G9@0=sohuiC;eN`Q>eQ+Ow{f8+D&
zJ_w8n+yT3B7a}+9@6e@+vBTzQ+bP^nYWSg-;|wTFmh*{WlmqrvB_rIPv{2_WVtjIx
zZhSyZgigMl{Rtc;Y`U8L2hc5#a$;8Ro|W!m_<aF8hD}<tRm1movU6Xy_n2kF8A-Du
zFTS=2i|1TQ6U@sr0u1(p)K|TVwt)H!4q9=qM8~#t3Lph%?M}&wq`3l@afVrHoLr6!
zNfl|4-GOv}dW9KI_gad3jlzAF>h?{D+0eMYutJ+9%nfhZqfm(KL|0Y)lASk=AXC0o
zJ$EJ*%T<zM#Ili(;}V1WN2<}FY?l_<bEU{PNwUKrPo+YJ<d<;3x6&rxCLb8X;r)^~
zxxh>p?<np#ZcY=)lo^B17RMcYrT7*-<{M4R=h6@p$6HF59oX)J6VbZ@bUt4rpoe4W
z#^#>vHPUE-QJUeERB0YV%%mTFm--Loks}6MRbg1E=agP3hftT{t8}J5q|pba{e@KM
z55)`tJhG&^LJ!G7@f{BRZ>f?$6_Bic4*Eq34GVQ}(2B~!?Qq$~wl-)PLUl%SS$8IM
z9AM?9T$i@exdlu~<gmXKut6D!E%w-x>iu*2g#kX7st+s)kAuFG%HxGy(u~3WEj{5Q
z*tF0U0}j^v0gKneLP@R8k5^K2iL^W8R5}C{Il(MblZjL%Ur^h)$v3G={-h6XV4xqR
z(7)*=s2FI;&d9r_@4z5@ya~j|t2B{4aD>pr$(wXq{fN@MKm`~k9}43drkHU(gWNha
zz9c_Do10cZ$M-fgiM00R^DFus8)BTNkUmUkA7Czb+lg}oCx{2$a=L(UvRuZBoeQ1^
zag5-13GNvzK;CkaIREr+vKKPp(~JTkwBZV@(Vz%?+mUZzk->`ITTXw0l)+)Fz)|>?
z-8G2apkzm1!9ei(8^a5<g==~J1Lp;FJLSAO7c7?Q&fl_#;B*7&)rfWq;_tS6Zb8zs
zD@NFj@Ev$^!A?wCPWLi<G(MYAzhI78n(o2I2;{G}y?6l2>xI64V~|tlvQZ{DdgCa9
z!FTvH1@4AgUXNh0!5rw8(-W8z%%5&KJ*#q}S(e@vlFN%C7j_E=WAcDnAb!BKfpLPx
zI9gsmA(9(1Rv3%@3&O^-Dn9gO2?Vp>AZAX<?4^9j0>SQInKiY~GK3xdSG5;QGCSQX
z+!XD(NyPIlkKH6fv+aTRh>Um!@=i?3{iriIqjx}0>notq*N#oP?2X+mLc_j9E_-*2
z%s|{=SBrEwcCHp_xdw`gGAy62axVhF4RWoj2#!O;G)=0Y#U=d}d9U*H(?52zayEl?
zZcIA|I=62-IES&a29y`tTV6=B1e~)4CbqPg$g7MO3qZjo2Yn$uxjw@LtQYdb+Gzkd
zi{y}h$kVmSrXJO3n7T};w!os}oU*Ls%Cbc%i!_~cNPv;p3gzxwoFazOgoF_rRvh@5
zJl6|#9vR9H_6RVp&GKX53u12r%%NfUuUsApW(I{ogKJ%||GlP9FCr#UI8!Lyh*76k
zp)?deWY9JSJ5^}*W)mQwm(rXEmy9f?(aUprcHKKl)0fgoWPih)3M{|NaWP81l+GUe
z2Gw53CXofp5mRQlR8bHI(|l<X+?XJf|KgNHn%rrla92b5U}BVHC7&+$DXztTD<I!v
zmW7pc!gvp$$^{NuI%me;i!jS^sRk=>SPE7^)lQ$4LMB`h<Hl8<M0$rYD=YcTL21i+
zEYDLTVop9W*wWcEz6x?Qx_kybg_{V2EWc{`X^lBNU;iu5AY0?~ZViuApRxCE5z}Wa
zoj$`G^r&tW5;8H_|7&^T0s%(JJ{l_M3ubag=L#8zGhCbHd!FYgM&;B-PYTyR1#=WM
z{NS(Da#W>3v{0C?xaB{3lN+xbwJVHrxiX@XYhR_wwWBIRi~&EMW4~%1#G$9t?3!Kh
z8#&_+6QF|uy85}*oLBj+(y*KrPEyjeY!6n0-9ig=lAfcMRSu)OBws^{55^sApzJ|c
zF1E6d;Va=ZLLNYG`ZLLfHxYeY03ogoSX|ibhAlW}1M<v7%O_Eq;p_?l{0vXvVgp@7
z*mh^vKl0XqUPt+rhq&S2fpayGxpwaeMj2*Srl47AF-~!kK`zN_nPvThGpfc0F)$h2
z0RdmT(Dox&m@^ajGg{*g1K51Q=4ce~@xMy23BDil@jqV&n2GrT78q<XZu{^F;WVV2
z0L7^-n?K+V!BXH`PG9o1@_LI&Z2JPQV34xuwgdmc`9K|*yK}<n_Gn5Qz1)oD9JDu_
zS*2@6U*gXE&nPD_gEGaV#9=q52}M4xMQ+)%APcR5&(J6a*A_wbYlG1w%L`G+f7Bj@
zUNnzFPpEqwrCIeTwnEl|WiOIq7KeUFv~yuiF4(^==|AfCswdm<Pwvmi4rMSXvorv0
zTXSt2v$ow9`Tsx7d*hlnAw!z{kHiNZ*wKjxw%p7hMs;-hQ3bZ`jceQKhqP_n@7-}L
zSK6B41O1s=uJ4x<-Ot#2RyDwJ<HdK3_Q>9U^xYbkV5DIivKJ$NoVq%Awp%qWB>zkQ
z=5Ld2xY^}jnz$1YF0;RS;FBd8V3tPKi&L3iyWU+6vtqf7{)h=!I%P>wrc^p{xCMMZ
zjxwM1QB1>MhG4gsA-LHtXgG=b;(e4UvZT}Woq$evvO(YK<29aqm&lS6QTMM)B)AkM
zV%Jd;s^%*4rmq#D*Uzn8Af0M~Ttq7}KY`TU#tx+$148<(Dd^621kYb4sUK~2afLBb
z!02wsEj!5kyxwk9Fk^)gN|M;whMzDBPI**GN>zf<jI%KJIaU)DvG9*)a6LQzDDnQp
z_k5Sya%%Pl5i#sOYjx$gAy8-o@YEB=omrg*qfc^fC$`a5OTW)^b$#}5Hp?hx-zzPH
zXJi??EL%)pcuDC3t-1t`qiUfWH!B{kCimAw>UC$88gZ`C2x}1j3Fbt_2xp7z3drwI
z<kz}I)E0x<a^3g^?HCH0;mu>RI(g^pC;J`5=^u{M-coff?7EZeGB2WA#4+0_5>dTg
zPS_uK9aCyRz#8!VXbXVZ%$7}Es74Lgw4<Ma+A|XiM9`GcqP(HJzNx(aH;C<=V+(bk
zjZJ}tMk7G3D5zDTPOA)0%%!L;=4a-LV};na7*mS1UOP^w7m;Se46DW~*Bs1V&e(vx
zX*T3^BNpqn%<zzH`r2cDMsHgWV_dIP|9kaFbXsvb-Pmb0%dld+3maozE7F#idrCgp
zQ9l1m%`31iFfqJV8Ps_%k~}2M*wqdm{p)x7$1?T>!pR1;0bvn5zOx6eBaYjs<W}C;
z5YgI;w(TB6V^_<tsth&A@~g^`DUpuE`{v0mT$q7kp+hMY%WPrttdPp`*U=)%c5(0}
zqaWsL!e)_Kt%_OJGy5C6=uSAPoaH9>F2Y%{qQA-5jA#sD8!nnwj-JXtusB9TeY~#s
zi^a{@1!32st;9UpeuQc6UZu%~ecrwyap^9}AH@u4;X5OtPgkllAS0GflRq-_stl;?
z0<ES~=fKx$@@xcgzfw>hOi-TRK1`v&!y!x5T@@nQk$#a`I=)_n+x%?%RZZqnBQ5K^
z$ns><QO17gau__&FtCY}-$W|%sV^$?>MNYpnUpu1sql!Z2YP6l?~wv9b(Z{l&MJ&|
z>~17VsPqD>Xz$(6gicm@{Ws?qvI_9CY2m**ejU)GAXzV;cFuUPIYYQM1*-=_6X|oU
z$dx*U;hXTH^FvRf!nbUt>lA3c`LP*cUC79X({P>$FHjb@>zf|1GvDkcWNFHyAijLJ
z!}l8ZA7xx&pC4rqjyRW2*sdRHpu$F(w5)qC@pKf@GHC<JCO&8Gi~@@`Re}Ya6`7Pt
z*VM+i)ViqfF=h$bgY5Kn1Qo8-xTsxGv2Ue_kve9ftPhz+^*(<tRMh`eVMVHHOHEGi
zJJO<t*+W%WVZ)xJwov%eq0o@oKk%T!uKufpDeR|lFO0pT)zNa>q?sW5p8Q?~A7>-z
zRHdKaL|LxFq&i9W>XUSUVdbw{QekDx7EP!vI&?3NvmMTgC3_f+_VK((GvUJ<VzpPi
z!;Q-1ERK`U-kV*-Y!d0+dXhw4;T+2V$ikT>H<o=*1dH0{$i1%KSB!+XH`3<zy<j99
zCFfoXSJ>PqRanvZIC4XJ1s0-l>w4%RIVP>^h<ttE8#!j}tL4z|so7&U=c%yLu(I7d
z<`kGU#ZYwn`jm$|oY8XvsT0qhEfcC^ETgZU-x303ascsdT_TNkrDlP>ge7W}E1jl2
z4_*n|^ivH~*eK((l)a7F(KXlfR*Bv2e856+nH@Z&;XGXQ+}JGCYj-DCfMt)YKc!mP
z^HP>b13X8H+EZsDL>(!jiaP6^NflH4#FnsC57JhZ&ua-=WnA4^p=(DMJ(KEg*;L=_
zE5;T0v`dpUxC^s9T)<W+wxFr-Y1Soc@FU8iSrkY47eIJ~=%JX!(OiYue&n}gV^4>7
z>HI0MW((hA=Tep%(O|Z}OoJ7To>~qIZeLaZY?Cg9oSKYSdQi6kZY<ct7Tx}YQs1oa
zi3H(9*eSq@-$M|>=Bluw2{v@4+XcycW<u*b9O*)fx;>PdmHyYvgt*VjxI%gUl6G41
z=9gHWCT(H!z;Z|Xho=4W$8c|c4b2<D@)ikV&7A#Xso_a1;g}Gy-LDESta&;fgB{KQ
zQ%b0!OX;HA^OBxeJtG}h;gsAcq6&K}HIY59`w3h1M-5cesL?>zN{CuEl0G8S`zoMt
zbVt`(xWeX2EpG2igF;x7rm}t`zB3a?ruRtfy><l_y4K5b2o*KUX*AFGf(#?GHq7#v
z5n~a(LxVZ$zbM?RE($l4Szj}i8c^v|kV2i4+Jye68b!EcsfX6{OrsEVtOhDFVB@KD
z-u7K$Eo|0{3|8_4qtJehe`z8Mn{567`}p>8Y|`RPsKq%<bs3vA07Lru)mDK;GY(#J
zU(`WnT@4_2Ul8l&cq^T~y{}q|74KaSSlHk~8CNukCzkr05Msy;iTK4%QQszVC#LVQ
zAtCJFs<6V|ewQNjy-g%+*o!KxuwlQY!@!=25YiiuvmN>~6Vomed)G{X1>S*S-(Qjc
zFIsJHlZ67W(tmk8nFBLfN#|_;YpOy+HF?!U7Haoa9ayNJg~HSozw;_;+L<JJ$u2|(
zC}sU-W=B!ZBuY79I~=HHHbjS~tW&eSY9HwAa5*>2W$$rL6;|zK2=o{RC_tyCIgA0H
zE51<a9llUW?+TKpV_z7S9QV#>rymz55Sv@mlyB;G_+6f+Uo_yV!bhuLc1=UqE(LC!
z!>aHqugLyfokC(q{Q9d?PM|{r^v!Iy>Ze%`cpxV!WL5mj@CbEYf9-VWFUc5rSKG66
z1z3#g8)6i=^k}pAS_Se|xEx>5pSMLmVgIC;DsY_Cj`-`>P?e15^$8ZYLr3!3<Y1Hs
z6vWS^Cn5*-<?j>tAV-;)n=K-9_Rk5%hCRmH>B~Pd6_!0qES&5&r!dFm3%s2k+<>PB
zq!+g*7zMU3?)2gA1YFoASAh#)tVODNZ(;~U;E#Y-i^5zz8*&%6A*WX)(eI~08tw(-
z`gY_lXh-g{9XU(hkaMWD#03@x_7s_Ts;ny$?t)?gWjyUjBD<VnTUzJBO6!P3>sLxU
zTmpF+O7(E3XfqvrlV^9APsIrl{*fn)_8rOw^2F-ui9;cRG&!?*$xsL(PsL;p77FQ&
zM*cneJ=@gZ&tAhl|2;68qUP4Ivm-l&Kw{QC?!INMbgtk8`4V(TqR^Y}?Rj-pV6Zuf
z6$+%e)y>nXLPeA3q*X7Z3K1fCwQQfJzsn6q`8=)=K^nhnUt$$u%+BP=Zsjv+LWE1H
z818za|1)V01bg&MNPa6lxGG=o69Rl!0O)Oj{G6eBi%*CkJ!jya+!KNrKWsSMz|Bl&
zvK?%xW+!lf53bJ;anZ_pJq*~)lrCSbE?$M$%8q^QvRuhaKHht0!<%$Ae(RgeiJZL0
zpv|NeE9|{i5&7JfXPQ=T)(Ih`b;HfGcS4ABc~aN9*CfsF71F|Hy$JGRxa#FMAwvJn
zx-=^kkg`zTV%<^IxoKPSGuqqc&QB3|D4&{B;e$RO9W>^|R^VgCo^)<I?sAovv9ZS*
zg^DEiv#K{4g$PnVi+f^J2qN{i%J)8n^o7E#?)8)AUkWYg@iP{dS~h|-y6my&a`}6W
zZ5zTCN3Iv1>JA$gm|Kjsa7EFk#if#Sj}rEk8R#Ba-$~toX;41#hiLx2De#^SJgV-E
zfXecsg)3B+pX#s(f&Vgw-Xn37>pg#ad}lFPoZ{fGe*IO26LwJ^u{C+`Xnt|Z1$n?y
zC=Olx#aeEvx7cMMGKAfuXR&hR1~|17Jz(M7&Q#+>!1jJ<;fk6Y4%A~pum*>YCbF=}
zQ?<A^Mx(=XL)c=C4zE<h?m&58YvBr|eXAVf2e$V?4_MgXM*uEDL!QjR_bAD4wPO*O
zWK6Ev^)pMI#U?yOIF7!zt-?ib1O1c-`CeIlI9E8Li_7{Ngd#1Bq4(%frh3YV>OyV|
zy{8MGswNp^eg4xx6-}_Er8;ZT(pXLvBet-HUnzxgVIp2$<3WWDeN+k<W0ZOMWCprt
z?0zVPtASGfjRzG<+4Mp|pVsS`*5xS{iqHM)W|yZ~C=Sl+`-|b4s}Z^nz>9K@mP)%s
zddmK-`4doOq#;(9m?;OUH1e=3K_&l%ySB?%7h2e8X_(e7F%kCU!whtfJ^9jE3xv{M
zjpP;uX=7JoGtgq0tfq?R`ye%0T`3;=10{W}11oIogKB~S4E9MK7C(HD)CO4dO&?HR
z@8uY+PH}uVjSe!eS0_kDIJ~KSCA;c!beH7oIz6|1Tc-SfYk-+*q7ZP-gj%>l^@x<R
zl7MZE@u0$n7E1X~DC_)T2D)c@f9Y6fp`6zPkkx=oW^I{dAePU1q@0lgQkwM?a3l^x
zmR|4bK82e|Pb&9nXYoL#dDK7^isOgsu|Ke}zqN3M%{93wHt&*m7LxS|c6x_(d+Sr&
zIlxxMvp5Pe1zrccy*fZD-s!Dp%E@CuZ3*>&h3XQi<@Nwu8*88no4Qp6MXUyiA?zNL
zm#St#0cBli;fkak*=o5;u*OE72CA^B6V-G}U}LAMNtm$aUa4kg0-JlSg)40CjXErP
zazw_@v67@)vJ#!3c7E^GL=g|I+M9#?_-L-B?ZRPxm3w_T_~bT<l~LhFJKC56?@`R1
z++Yc>ITcUUOaoOY>p~S2A?go9*gcZ|(z3QfS-;BDVWw#?e*>rdy`I7irZ19pru*v&
zVnc`TKE0~Ph78E)sAEkJl*EqptJF`e?>7Xs@9hMaM4Sh4cj<XMK_cQy7Ao-AKVo7p
z<RXul;**GK?~15cO<$^Dtyo<)h9kEYYi*olMcS47Ml!Y|GEmQH2)P!SP#oNKwmn7G
zZ2exD3Mb7D(U+bS*c=RW6Mzs8b#ekTe06YPMq*qn6GHJAZubSVJB8+6B`JNSMum~)
zK!1yqnF5>Rp%vn@i^qAVRC8XWvt$`%Yp8X5KY<n<zD53ST;^jc^8-Gq+1?D<=Su|^
z^|<!c@=NX^&Q35Ahp(Pzl98~i>UvV>?QI;{-lZ`433i}2VXneMyIUiU>_}Q=j#h?;
zV%v9HPjL#F?VXDjCz6@Rksa*f3l)FOZA!eS^cWs;(#!(gjH<)-;{;CJ!OHS+B7qJ$
zvcp>Y53CN-r6){-o~7sGbc4kfz;Rqv-j3@M+)mFvPhb%b<@e_#T=Mx^g^Q_6dk-(2
z{exAD3DX3+8jBU<kCI}r8<Zc?a1qUe9Q0~ILv&z2z6`sG?ECWW*@OM-*D1!#YcE<p
zyz%zyv~nFaL`Ub_e<zp;htDJacM7RG4bg$d{C8TJS`E?VJID9;?)ZIxWoT*0l8jQz
z^?jfH!O!N&E?f|sh@;Nakl0@cb@`7j$<eb2A}H@8%A(w(&jaPwfc?X#&jw8=SZb<M
zc<N;ohj?nLX?W^QsMGIVkgxI7^tv+*>U@*qsdIYcBb?eQsb@6J0Z+c9aS1#*yF^Zd
zobICV<Z&<yV-50T9%zuWMIBH6o`vxePhM>OWQQQPE47LA=$YPR8uVK~NLP6J4ZDpL
zPfyH+pJ3>nMt+NEyTSudJMBkHJODMeM2vWVm`%W34}h$XcmO&Gv*eE+0BHpt;3G(*
z03`#L8%A6oc!W6AZ39jWJVKs+;Sp-550Aj~d6O(O5sECtBh<TQ9R#Y<Nvw(Rm20+P
zz7A460-aY#hl)c;!z|ZBK)Oa8!e<m~XjED~%z#IrJ@9wA1_DuNe-$S)Jp_6xq=%rV
z4-|oHr8L^WOf}gLA`r@d`1I-OXjY)6me=mh{BT=r@DR+_62~*vhCt0O9wJUqE+7wq
z)CwK~ImtcF5v9$*LqwZhjNQ9>+|r|`7Yu?nMH50#oOJD2(&KSF1l`9I93AbXmK(dZ
z<RGv+G!7!Auc_%lWb}PSJ&2s%nv92_SD6KQk!nDc>zLMLXA2oUsl`K(pZ=V_PmO>W
zwu=DSwS2`I7;}0ikOsKT(~w(93Ys>D$6)3&pf^$LV$kbzbTR173Yr+$U{(i%COm3l
zV54F@23FO13~YRi$G{rFE=E3IYhvu^d4(nh)*AB|SX;_t6tv)46XSCoX}9A`PfwY@
zz>JwDhNg~{eoLxlKg!L&o;_u&HM_Y5kHNZu^(KehVykJ_8HT0}Vi?hOiP`}37@GRQ
zFt*``b~|<~nL-;w$Br=!tV_saXxcIAjin(nEHG@{v0X8Xqq!DFG>gc#1EcGsDi}|O
z1b?D1;+#6PhKx9`4sAk49hZ!H?V2F72)R)4ASrvVSQ~^s4y*}cM6d;W<q;231{^+u
zxX=J;S4~?JBxAXg+8}y@-G*5nF0d!~qdM41RRkNq81c*RjONQBK*rT9W)A_9m2X$%
zc$6|qS5|o7QObi>7QfZ#(Xz~Q#QG)U?(ql_&{7AbJm5f{9gf?44?hdpYjqkZb&8Q6
zzT;8YwuJO+6Xh8mg{|t<QiezQr0G^f?E>6E*o4>Js+va=hUgwP(md%LE}|Fb34bO<
zyxDMz@xJWA!Saksq3Gb4YEPbiVWTJZpkrx@Ez;K1I88VmY07Obql>z91)buV22L}_
z_1eScr-AXJUNb!!B^sTh<XmTd(M7JY$r&DqUmQ@jrv_?A9vM_P1VZi{Z9YefELY4n
zW44bC5IxkO69en{)j(~00IQA`zd5IZLPkz%pmN1%W(fkw=0k-n_ZoS?StHd3zn=Yg
zBu<l9!!(fC?5L*7MjNTrgMeNfg-5D{o!2#rc%<f(3B4DnkvIj%T7g3(tQoNPgFo1<
zf$bczmB<OqC-8-Th*{cV54CD2UQ$>!clg*6!%Nun)(9x~h^(+9=<YA#_#7?UJJK%f
z{@ETLY&fY^h=>=3S!VV;-D+av?VmHM=QZ(G@^zR+|B(&)zFkF_9;a$4+42x$F)Qym
zF#}yA&muf+x<S*TGAP@vg&J-3{ievrjQ+N0a#2aY>EHEn(v1<Excs{|4$H*Q!Ew3R
zstKUdPcZ;Qt7VJ;l@`(f5OY&a0I|)N2_RZoV+JVSn9-y1L`nz9<4SLgAeAv?6G$v;
z$_x_CJurgA%5=;i(TW`-Nae=R1QM&`F@nTOdi0Qne07fzs46OC1d5%|8G$Oxe~dtt
zl|Xt>qfSwf5v-~{$Ou*y*fD}tRSg-#BHK+PSXC{NF)VHGXVj@M(!&~ei;c{I#i7BL
zX^U*U7tl5VRu?820jq12%z@D~3=?3@(VQ8uvWUqX7(MPY1x8DojDXcuPR77!RNokw
zzMDGkmO&W-t1F_6fYrrOM!@PiDPv$P+HVTXn4Z;zR7Sw+nkqf8$zFMt5wxb#$_QFh
zbY&7vcd}3RO0mqL>1*3$uRzNPT2rfK1dTh|F@aWBaG6764K#*kY!sRjFC%D8wU-gJ
zrtr%cnt_e}WUm~|7#d3hHilLn-<d#b>cxzpHKk)l(3&bTBWO)QnHE}|+0oXP8G&od
z%#6Ub6=z1^+Tt^VaI_B1ARH}8GY6+1@9o0TLN#-6`Z44Voc<i^!0AVmJ8=3|eGe|5
zug$@+LsxTf`io9CRZx4K=)kdBICF5UEY2L<m$6yVX0(`tGpEK}PLVM<b8AIgSZ4%|
zPj@i^*Oc3tgEMD7+af%3aOU)`EzL6rS0-wigfnD~+uA*IaOSLWThV6(t}X5}1y|Mi
z>A_hCC4WZnxavP6cw8Z%5j?)=z!+Xx9%v4)tQ0hf$11{%;h7$fvXsyW9#>Up1dl5)
zG>2E_N}9woHXd9Bq7gi<7|{q`Crwlb&ps?sGy=$1D;fdh3m44*cG8Ir0P^LGh5*~j
zMk9cHk)s(vuHMlIAYb}u1dy+SGy=#MMCt)LM`|O@A=YJ*Mi4s{lSU9b#glr7?y)*b
zbC4%!Wm8>g1hQLbX#}!cb7=&!TYhN<vQvp^1hQL{X#}!cpQ#7w9WB)~g1J|<X#{hx
zfYUIhfvAIbw5-z%X1BuA2<Bd~ry0y{-KP=Ey%JD8%;E8BP$QuGRYpcY_iIGWfbNxx
zngiu3M~#5)7m*qP-LEG#0=i#XY8uplff^n!IMo9k32IM`pdOT=8bLj%NHv4HU!1Ck
zIu_Nb8i745S=ED`2&-4MaGim;kW~-Z>8)wi!gejC@>V?_j$);2#pVA3@5?p<_EEhE
zc-rNfZByem5XYzAD1L|^Ue@5=rPK4Zh3nD2(I~b8p4gI+Ww`05uPi%HkOb}WFv)a)
zz}Wkfw5#>%k7V-aEPJ?VLz1bBHmJgz&-3n&N%1dnoJNYA)HIjE^~$=*R1)Z`*J8=|
zm6D9svrG+N7wz)r%jEBW9)GQ`z7anclKG`#GEkD1stt2dRV-JI`->FyOy8hNNZnpU
zV$<BUWGsyr`X=eIvE9URNkj|U=u53v)5iNk8*?Kfj;nf*v}PdDj4RQ%n_XlN{czkQ
z$Yg#+oq0i~_nlBICWJJye4vUsp=51CIT@PJEwD+NCLSk0ks%uKM?@n?e<;R_r(p<~
zxx5vFuoa!mS?dd)GykjpNSv=EP4~HZnjXB%EP4%<EhGI*a#olbEKX?#bwgHObnP9f
z$^}zp&7$ANKhng#J3D7wXUCb<)a-YPexOsyC9%oMqtD!su-k)4vkT+Nl;}H&`;E+!
z@8<Wauf&xkog92nM|^%f5Yd8G)tu(b=L5h`F+KLY#(OKyU%KK<&d!tlm507@<(VYj
zlKlVTuy-9j(OA5$8cz~eoU2nWR^^Rzh~!VE_UN8`8F34EV!X(yWC})zN^l@i*Azss
zd;JX}Zl&lN5K$J4!#o!fIx0;F2_hQN@xqcA@{ksV{jf%agAp_9E(j^g2WT%9l~O!{
zkh-g&y-0X3lGV^&+PeylNHEgP?Gbl9`_wwgcFU7Bw5~1oquX68K+t{1T2)$?CEq{`
zst6<#rbF};Fct$=2xWe(qcL3-LQHSB42R)-t8l$lxZXIfH(iP`n6AcJ<n?O85)0Nv
z8P;8}el{^&Uu#jEP$;gihZwFeia1W<I9(oLTxhsC<+mtM2h_!a9tvz(UE)ARp+S8v
zI4!|wYe9f@8ExbTlGNf8MH&%`B8?bDkw%oFNFz?MB)B+68?g!`<1NvOLpd59L@Wv&
z#4HLOL@f#(#4QSy_+AIGi$Vv{i$o<FH6j>>x|3}&3}l@heT#yhZXbZ)mEHxy?yl|y
z(%usxi^4a03WiV3zae(E;V9H0*0#Dl9Q8HG8Z?p$)OH1Gn}gc6-MWbCC1f`xTCD&e
za}F}s<r-uzKx5Yh5@N24BFtQZ%)7ardAwG(5c^)x0_{DBeJ@`@_FA<X`y2S4LZ%Xz
ztoLaxcaEcSJYSDi2kky*Ka}+t4%GWMAIq24>HyFuPJGE0OiEU4?W22~J+4j?0lV=Z
zbKo8BJwUsD;mH03-T0_;`;wem5MFzDU!SK(7AN={&wO&kueWq3IFhB`4<u>u=1Cfy
zhU2fz%sCm$@BIs2Ov&{3j^`?B$4!ux`@#FV|LiTX;P_i&@00-tUJ|<<!*@Ic?rsQt
zLWcFKk2`-k?w|S%nYdt8S@)ifps-pn58|bLA==x<nWVl&37eDu064|t?)Fl{3wYYS
zS#5LTHV~fvBji{3cuu*-ojcMCxi;4?8rdj`16V#uAzXibCD{&kz+M>wlbOT;y%j?0
z!QSV2R=Zm73Va*SHup1mC7dXj@pMj5vcUe&7bdAow^H8;R^k11^73u8_zxpgaF*gV
zNjY;6x?@Y4&n2g1J(H1(k=OWSx|IPb3Yss}y$$yN;OwQCMn3)xUywCk&|F@e^{<ya
zy*O+5C6kns)unkS=GGmjw81QV+(V%30^DMWXR`dc63b7&M?e03{c}D4j=hv|>S@0M
z$w?+fn6lN1rZP|>lz?c9rvWvW6+-k64h4JRDHR^eQ|jHQU;44>p{1zRPH^vnj33Bq
zm5_9Kx^U!t=4>77NJ+*O-nhAdlLvJZYqQ!N6yh;ikV1VV+%+lOucR<H#uzzL8)9LE
zjN@D~jXS%VZ4L*1f-x?5wjq+DkW*2R9G4IZfsUrr$Q5q^OfR-1bu8n(SRQgdjvOC1
z9@vj|xj0Ql)7e#(l<H38dN_^{G8Z*t<V1Knn$9*~#RwY!H(RTPj=Zo9h1{3?m6JlP
zI!RWvGp)L#5bAZ$=>m<OS*D_={u85e=L|CvxHeO&AA$YmH`2`0=ElyR%shT?7Uz%&
z@-kg%@dGE1Yjx3^J7rZiqL6E@KUZe%!&+8MjwMq9;JB7J6u|MUJ=f1Ye!h2~$;~qG
zud%Oo3QGgEO|$$ln43RGl1(HlcdRJoj_;U>s@UDA5PVCyDWJp$l?-sWTW(+}_X&_2
zfO1nnNoc7A%HI%Fk^oA^mP*!ulCeby`*y48+yJc;ORc{Et&<bA?kY>SR${4@0b0q4
zT1}S-XiY4&J_A~l)3nyTC7?Dvjb-<S0(cgu@x1SE`=}^LMF4~c5J3P4k01gRn5O~V
zLEO>0sdg>jP%b^)z#5xsrt@^u`bGpv-2zgx^GGcR!KTy<l$rxlpU)$;oF1D}pFyb^
zAa!{bsc$1^Q|uBH`vizxfe299T!RSEzRy8~UjPCF5g33_fC$e3!cP$40YKm&!lDNu
zE}Pj)90eGl#wcxbEP&$fa{)b6*^j_p+XpwNueJNhr3dNvhYA)$^%+kTvU)<z!4g!y
zPj=Jk*J=-ST2(XpAxjCfnO8#7M%c3LS^k9COjU2%T!A)qd2L#4Ej1pp&FnMr(2`P6
zus2svdl;A5uWeR?C=aab0P{VUhn=R3n#U=&zH0l*WN8_hJ;TQ#PPVMidd7=J<smOt
z^cOj}N7bn^7PKH-m6Szs8Q!qsRoS!7@)og<PuEFQqxi*T3w28iRWm79=3cIZMPZHM
z+hRDQ)(H2hEYu25Cuxm$AJ1aDxo}iWZ;P(k@B`tFlqV2Yka6b`Qo=ZAukIClEv6sm
z#i^{vI;&Z~ePA?t04*ifh0q{XFOGTnQJ^x@4y2L8!mU>J-EOdKWX4(by~w!!f~2*L
z>?C;I5){y`Jw4E|4kHS7L|wbK!)G1t@b^p<EAq=O^iAIIBwqg}m1H%Xb$k-*_zQcb
z{F-iu6HiVf{;q2Kam3^#;viD55^fvbw-nq}*yHkZcc?TPSmaLS>o2N)!nSnbMr`{*
zbWSgw!&B!r{U9p0LA4j_fE6-hd2nO?d=O)!u!B%wBI_2Z%!c~i9jLnaNz^q~w?L&4
z&eX(bzJ87-!zobnb#xvI6ZH96Dcs(?ayK+}|E6_jok@fDrlCs*Le<Q#a!&Y(p0-^<
z<v7w4|D4M6>htT$7`}VO4y5dFN_yLRGY2U`XRl%DgKjutY@Ny76Xi4(Ggb?ZbETik
zOs{Nb)8ev1xJf4cD3dqbS67T*<{R?eblgqV_R@#Ej4j<P<)CY_3vSDEWGSZwam*51
z@px^X0Zw|*g0<Z~-<MG+G+U;5CTBQ*6kQwjeUkM}1>GnIdSv9k6LK8NzC&#stMY?9
zU2`nz%TUZ(=9w_dS!RO&2Vim9kBTw826)=FnA=j@Fc5~PZxs2Q%O(Mu4rEG0XVTti
z6j@GGJC>_MfIfXC$2k=OmMw-EFedx`yDP0&E&M(k&$cr;7Euu|zAV-KApHvgs5rxL
zgD_`alA)qlBAkO@iwc?|Ngz#0DF>qveu6b%AvkOYnaNQM<69~TN5xE<ud&EKPewm~
zJ$~KHf4~4UPJAJGBsro|#Mhi{=8`9w{t5N_!Dv{^Ztp~U%|QR@f#sysB!V_zP${v7
z(!6O{q&+NzU@&KjV{%Ok5>!a88wj<5gg2b2DiXCv4WO_BOwBU*C3);_9YEO2KGxQd
zqdnn|4Pn0x09ZcjO{Eh-%T+%RO`uR&MxRL952PG{yv+Apk)ps6iGs)#$ys#NS#-)-
zbjn$D%2jke1zzF`l|WUxK`D1$DQ8{<ruLk%^a{FSnfi0aau_3Z8Ka<oiJL7ED2Mq{
z4)diP=1aNDS6H7BjvNb>Ls+!i6|QK?CGF5)Y9L+{ocH5J{o9!#UL%gMey%BPyL2jc
z{ke_>acO0G-r(Dq#s^i*N=ZvaEUd$f>1Nu(AXepxiPcRYx_lGxK>b{j6_RvIV6j_<
zMx<K~lU-6+UQ-qVSY0ztJ-vKcVwDI|&Z=NyzL}>+%=-YbH*RK)s&Av3+>)m&&KbX?
zmu+M`p`t3#vw3bbf?koe*9kvDC!CO_TAipwomHk6WMW-~Tf${v*2sJUjr<k37dI#$
z>)Y!Qenz_r%u+T^B_Hk7D2Bt@>VXq-CY|=&x38)PrkeL#7qg-uSORZaN;WlRE*T$E
z{R^b~^L8P!t}_9f#b4Wq1oH}&HuT^26A8Nt$(;(k@SoX_B<%dJoC>_~pLhAk-{<rd
zT?N~xOgfhMFKHdSrL#%a%DSkASigcovkn8nHvmUF0BT*+Y%L4YWN7oYyiYgPk<jwE
ztPjkC<F)0<p=px#p1<KY-Py`S5ZxMT>&9;UuHA7e_DZPFEkoTyIz_uTJ`1?V^jD%>
z_h)5k*I5r%I&)ZY!MJ74W1Vk&ybW~r{AAYKd0uTgb<HX)BKHTWsnB}Yz>Jb2g*1bu
zZuB|b(gt<c+8^)O^&PA3A5!+on7JVN1$f%EmThy|Fbv0U--wWehnIuVmEFp^wcD}1
z(HTd8o5ap+2ikr5IZha`^+8E*$BX2Gf08WyEepQP7rTX>nn5;PUarc|z2p}JL7^3g
zoN=xCaly2~AXqV;nv9t(l=FqHe^ZmbeK-03WB(z)`3ezN8Y5v*k66MA_cWsdF=eX^
zN7v0u4NjI28ms-{Aee5Mp36jVG_%<xf;Z45swYEw!c!|pgQKH+SUp&z=U|Mo%uzFo
z<JsY@$wJUSrXij<t8Mpx78b8I_xjSD2KAcS{1aQZ0xhOAcl~vyn1w`agf+cM+=dOg
zQYj|j;t+Dv5*{^hrHW1#Vv(S<2WEFgKwO#nFqoFwD3>&2nYIS@!frcRsK0bVhb-AK
z$!nOBtzL#~4c28$(wU-^+<Fbs8O`=hHR#M<X;(*$EG09+N!jU8;=XW|=dSK#=uF^r
z%BQ*t5Lr&9!d0et+B(GZb417d0RX8ixT>|loaVQ#Z<vC$P+*i*t%hY_%Jo{@leyTW
zqUhpqcyK5ccfGgNbo7zlLS_5C6Op;6wC+jPO+U6QMJS~eE^gdsLLw*)sMb^yp`a@#
zsy0Yn9Q%VnUhTz2UhP{Ab@ia#VH~up;6XRk_2a5RGVT~MQ6D@eAL{0Brtl2o`hE<<
zk9AN%0F^GBD67%I<4f}Z&pHi7UYr@3KQRytom_XQZFHek?uU{gjMgm6s*&OV&!V;a
zx7&qRWy*BBZTl4qqMlKjwBd_si*5=gAI(`#%$c{)DPf*G$=1@`y%_KKwz@WMH6qca
zW8&-T?3_93J-@j>A$mRtywe+hRgv5_i#8X_@Q!^-2k|Au&Z6Ss4te+uxlhD#FSAq4
z7||xU_`OzT5xVj<^rj8%OEBi{6ByBSx+^1JEJN+}QQZ_o-P9&J38zNS3cCG2%K6(-
z>jPcgALKqf&hQ>kYo)s@VPw#Pn*(I0ct^~@G32&%m|;h^Zeqf`u!na4v(3H_eK+!A
z{0#$%&GUi>h5~rny^>#RgD@1u**7wps(YMvf82x6b%Sm%ml&@lXp)j#yU|a-+IEz}
zCdi=V<&eY4`4JAhl-rVWA9u;>sp=O&y#vNJ&PvciIvd{BNGM5J!vbX#DbcAN-oS($
zZ>*CDjp({c$aYdT?#(~ai85Z*2xs>YUybHjNVY`-o*W8YQWip57_tSSE9rQ0-`>r$
z_m9tKy?g^MtwXN%eoRg%^68)jS(g?k!3}=VvD}9+(muQ`vS`f~{!z3!u;6Sm_BxO)
z4`9U~9Er4Mi;nn%vjhDME@Jn*+25Z?IE?;8r1a*hJjpmu`ZI#7Lcz4P@XNLQQXVy$
zW^=6i^`O21=Ltj1q(JHic-qC8YjfH-6ozO25jMs)ADhc=v(qwd)19IHq7gy{E%F6j
zAjz+<WN@&9DUz&ACtorQ?{nUBd?ZT;@NITG+s(u+k7+XhxR75*%NGy?6)O?QA!21X
zCV3Uarw>2{8ONiW3HS?qo9#aH5xA<K3H9|L_+D;s@hBLEc`%m6p1}%m0T&bxLPbYZ
zK~`%)pNFu<1>O(Qr-TEXSE4at#E3vJy~7!13@_Vxg?I<4gaU)2-1`6~q!1+#`V&=m
z{gDUi+mw-E-O^9^>7KEYMZAK=QM@q}M~_MqjA)5ed6obQH+@c?l$sNPo%8|2yresK
z1O1(A#fT3G7wHs1O553&hU&>btd!LS_jZuhg0mCGod&kkrW^~<>N;+!epuo{T*%uF
z(#qRTm?$A&&`ta{@h3xd@<}xbgER;h&uTkTr6<M8nL$#(WtQo+=gg498DTaKJwW1U
zID`bT2Z)b!h>vunk94GubfkxL#v}++50n(hVlYK|@gjYAiS+vMfl<%M14geQ9~eJL
z5l=~R@`49H?@0Qojr3C+>8CcmZ(#?Fml99vO=5Uf6X}N&A3DbaNO}UL87p&rbWkj`
z#%SY=iU*xPhMs|@Xbl-e>i-(xaCbJ;P3zklD)Wj^%nsK!Gif+^RndcK&=lVcFdi-O
zLaypEfsA0f1SC_p&_We{M<6w$q&eX^6lh(4ea-`y8}&@+zgxcfaCh_L=l<XP@jnou
zlHsw+CKe15!IQsLcIxYCC(AhxT?6)o%W{$25nfUFtp7iTh+RTFT!@jNve;oJBAt(t
zC16^szB7#PBc0qa>Ici7wae+oAANGC`>4fUczz^j0W#b1gAIJ;5#Ceywfh3;4HN0-
z)2tCxQi_oX!UwgjJm?1}N_N;|NVA#EIWe^`e(g-nGBlBrW8Abc5Eb}I{Gr&>`pvdh
zB{&-R-`#*|2NgC08XNG|Y64={m&_OY%(bu@UtA)iyqbQ2OsF^0{WiqgBYfut-d~cv
zFZNkUUL1B`w-@BKxo?_5N*54q4#VFIbMhgxV`I#3th|{&8)L%$3G~X`$mKD#3*>AT
zZ4Wsc=sNi5nQ0Rn%Gp@gLH+iKPOT8Vlg_OTqW7xc_B$B|r(eoU7D}rt&z|NM{6>Gs
z{foL=i9}gOrwfv?4053FHkPu};xVhR(cNOsvF%aI@K9YJt6$B$s$0kF&*~+8HTAkr
zBLJE{*N3-jqSImC^a9WX>bMiv-PKE=<Bq(KyE;(E-R;#t&Fbp-+q{dvCRE2Ez8b3D
z30wBe7eja3(I?7xDSI8Ob0f^{w@A~|)Gsy+dVQ2rrwMr4&01-5;x-tb{v&+g<KuE<
zm(DibZMHMCUo^r9qT&l33CXXoWQ?)FV96rvPG%B9cn&>&Exob={(5}*V@$o+pMP2K
z?}Oz#u&kV95lCP}GW(H@Z1K*IY=hD#Mi5M#6utfiv|$0J03|tl+hge%T!#;V{}nSt
zU~E~7H--RZ1gGmBXdD2_S1Y_j%N}TMg0@$VZ3OpR6F9a!Be<D)Y-XODndfHaxsiDX
zTXtZC4**XM@Z3<Jo9Vl<?#&29{ze3{_RR=Phk%WTK=C^=xQZ?}&48O`z)dsYh8YZt
zJJH0#kef1i`wMAA!Hp?`70D90iVBwK8AY2OBwo)&IG~6Dn!{8Z8Ai{Lz(~9<p|BGg
zd_}t{AsKONil`IjK8a6TgE)&ILrVaeE;5nV1yJEz6KN4dv-qWlsK?V+0&_i3AgYML
zMXYHvj9?tshqvy;g+>4OgCKNT0BI+7_?cupKQ^1n5Lu(5-_%5%8r*i{zKQ#Y)eN$3
z$ZUzyK9B$a0RjYS0~^Dd(?KV$(X>A@`8B4SPm|F<|Gxg7JpB#aC?m)bA$yEK%&7k$
z<`wbrYJRDtB=Vw|WizP*Xel)E+oW5?T{$%z)T1npQN%2Jma=Rn=M0vS5Q|>`KFk_(
z>gbJoc0pOFr7wsuSC09l#HX$dpwtWWb8bs{l`wyTX&%Ej`MM+zZ$>_xpaoyos6Q#z
zm7d{|IqR9ziSiO+Qp8g&6;<yKw_t6_xr5eKstbRKR*=Vnzx-MLUTQ4V*I%7TqMOjR
zWU^9Q-E_Rh8VjGE+2l6NXO1()RZ!1uZq9n<lqjyddQPc1>zPw-IH^TR9)5#_VHi)h
zHrkf7J9AoVQ1bpsmIA(i4a6Txi8pfzM^HNlM!g4tZqdtVZv+}J#g?^!QSInXJ3-Y}
z>nJu>>9qVCbXo(!QVC8v1&tQOgO*MrwG`>~ZqUI=egPR@M+PggEm^>5(*mEVl$clL
z;#0nm$b2f^Jixc=@~uok#k5n3;3~<Sx}BprZ)7#vXm7e>C|wprwbs@{#oM)D=5%-$
zC!-x`Rrfwt-Lhr<AGQ;xafHQ9Az=+q{yja(U@rPlE414t6kJT`SiQmhosA~olAG`z
zZjN_U(0)fL`)N)!_rG}Xj&aGW))o=`NfC`^7prJ-H%l6&6y4jD45-b>d*_^Zwbyi?
zA$@kg$Zzu1VVZj!YfLA>O$*_nSqOs>{Iv{G(6ppcp24lk6SkJ;!I$QK!Ls%bKO4`i
zHTDhqhXC$>8BTjV<gQDtb-LE_0AYoR=&j{HJM<=LTGvH~F>D&ZTD^C%*|!EV1rWs<
zHDIYn*#jOfQH&FOJT>aWQH&$Y(ZR<?aSL;HAym&GTB1{hx;@TT&O%ZKo+gv2ZtgA(
zQ;(oNSUu#~kTv0_1K;YDRojfTQ`A4l&S#IaD@ghR2KltMC!Q%ihsvim+6qi1(P@uz
z10i2gs0vclsJR-oKIAlLOyS5`Ti@wtxETX$aO7;THO`3~#p{1BKf@37Q#^yJuH<D8
zOGOXWfq-!y6;s1UtmMPr&-cb23YNY8|HBHwXktcq+KUhJD|0S3%Fhb%b8{?BPYH-O
zG%n4{OwLb9jn7O;%_}i9$}Enr$V`bZE=epZVT>oJ-V~}nIX|x?Gp{ri0NWWPGynhq
E0Q$$${{R30

literal 0
HcmV?d00001

diff --git a/nora_ssh/default_17518657221149090802_0_16036.profraw b/nora_ssh/default_17518657221149090802_0_16036.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..16eba425ebfc0ad0bfcaae200892e4f36587d373
GIT binary patch
literal 475808
zcmbT<byQSe!|;7V2|)!UMi5DrQb0mPTBN085JgHQ1nKTjq$OksNeSr^h7_bbm7!Z&
zQBa2v-ur%^`&`d@&+|TOowfbPpO;>rwfA?Q;>^sM0LP~<9POW<P!RmDU#$Q0doT6>
z{Kx<NCVJ)n`)8zoVqzftfB&iG*W;7_{w1UFJ&-Wq<fQ25iubYa|EUoD&;LaGKfg~)
zzjft5B)H&}-LNOmh8Y=&X`BA<zk2#puZmYN<(H4Ad$#in_8!Rppa0wc^*6|e{(-F@
zp1ELXq9TyMU?{!RR}u9;<AnbH|MvU;n$`dQ+xK)y<Sgnl6W%;MOAMdNByeB;*L?r?
zzxe<EFSz4@L4_v$icNMdY#|l9Z{39fbOOYM4;_+6<e)xiKu6`{hNx(Dw-Mx^038eS
z3)f=`&5EC4Zl~W=FE7B2f%W0@X!#N(*d4Bw<+j>wy+w=xbYkLWdRP|6{y?442pw|R
zGD_H@p5M06>7AqB^B2)JUqtE<!<<4#>d`^9bjiPW(Y^EDuBluI$8!qi{628$?L*W3
zhSrM!p#$FzuL!4Hxu~%;<TjUV^V{^_O!Fw%deIyeQ>o;O&iZx6D1C}uxaAM%*gg)c
zf7Cnp>xTbd)sqPe1sOmm0Wa04oq56*{i$eLr~{`+0O*)3Zk39uNo*&wML+(0xar(H
zf~*gG-5IhhZlrhS)k6D43_|BLY~A-qN=G-IAD)8t3wwkP>@ZJ|&8wK@IruK|-i7X(
zmZmYgGK3B(Y&?l!<9{=GU$n@)%(3w6ZNHm=(19PHueA4I%}321s@}>Gp2L6OwM6K^
zx99G)mn~F}h*vLu)|tG*<E+aC=rC|46zH*jD?=+tnLjy}9$gzow(jup=$?#Z`<z^7
zxl&*iPw{B`Mn0f(OZqK7$hlDQl77MRTc6KtmViz?%f-hfxTTr^>r*^4V~+h?fR5o+
zN{ZJcE>dI;%SG>Krij;u!1`d`JZVd$E^MqQ&+EQI#yOD>=$yN^O{UELI@3gJD$2>C
z`Hm%^b4(Lu^iuSfJQJyfcYARC9v7gKENJv2?YPe7KikhBSRaYILG+J8eK+b_<MIa`
zBF^UnI_?*lSS1<Od7$eSOF-wW{^+K*4f|krgPnTX4XuA%2p#zGuvku`G9O$1g^MQV
z`!a6j8GZn)&r^bDRLteI3=)cxYmYA&%U}VW?i1qA6{J_+EtAw;zc#;F<PPZA2yOe_
zB#}<tjmGzg?G~Jf0Xp#OReV2KABT2xN5gA<&2JZZRck-XJ;VY!{5dxtojY8g&GvI*
z-Y*l8a|d+ps@eTMGo>qUKK^EKjo_!L7(xerzNmC9c6~oUqF}_ciIWLxmnJ~yz>m)v
z!8`X7Xt%rg_TPw1wDKJ{_aW;HAJ5INDbgItk2G1Fgo`CEPtb+}IxnUs_)*m?R8L1U
z+%J5ye6ESmfzK=P{e>B>NRm^KLj~xxJghLlRXy8^;158d|0&)d>ILf)yZ($tCdDpr
z;nC8R4vshkgV2E=H{3^PSc$)?4~<)klDWOEG`2+Oz}L&>Vm<kn_j-|5ZT>V;zrGL(
z06Npx6I7Ult6MEu24fY`9eVg4us&7KZ|Zx@R?Q^DeD^38F7s(d=)kWJNAS5?Yu!_8
zi|fK4{zT4BW*~In+mD&u14gQ|3SAqaoCHVWb9N>O9r${QEKm|vRJo-=`<DPh2R<Ij
zoDmtLmwOryW;PY;HoQ7^x{-B;J4ItxlT|D#AA4y^*H(DA=9K|D8uJlhr7WzSDcG2?
z?-E&M_JB^_r&n8yGR@gH-yixFmChvzAavl{Gxeov4;}x}E!l5YR&xoQoA@rUKBa;)
zB_-P%>y=mC(g+kTwqpUE?DVjJybeBM#r~A^-DQ$hcR=SFPhL*M+9M5nEAz}y#wi;y
zgbsW=EW9%_7%wvB`putUo&I#A3K>EN-kF=|ltawvK=${Mt6M}Li3Eo_!8%)0eeLC%
zb=vATz89z{XEhiD=#VF?OU1P%ey@F&A6u5%aZeM_!K-hE5tMy7*bG11pZc-;kqV&$
z@1vO%^+TOQo4K#$^xx^wdxN+Rus)?Ms!AE}!Y&3bn{J`Z@2p_}ov$~^%U^xWdPJZ7
z+r!YG&=n2nSO}*EI!n{`)mkr{!K6AlqX3=Tv4TXVcS{7J;~1_TtPdTnGOtkhKh1!r
zTa(ggPc#P5nOIPecU;Q2G;#`WPDdn1fkx=S*WLf6XZX_M@JPs{W8cHnDQ;GT4*dAc
zi*oEI`$%t<vb@IJPG=o3-v-vlX3y+nMjVAd0dGA;Qed2F2B33&>CSJLu+Iugv&XqS
zx{uvW03E$u>3jhShjU@lR|H&zjGwatI(##y@ukvtzh&MVk0*Ih>_6X%tPgy>g8V9a
zuZX{0ZlOP9I9VFO<pVlytq*i~KHMndbf)XoqloRXN9e$>Td-RcnKHh6IJF5EVkOsE
zSxtlveEX?dG_m{jwx<Vjr~n;(a`~j`KNe2V_A~SuS!eio>KL^ORv!-wLEBFZpp)Ci
zzg*S%+Tz+T7kyh<NkdIQ$DF}>BPHy<-XPl_m!rn7J5+#<)SzwYqAF9Tz{Jz?msZ5~
zLoHx^-b^I@_EHt`^t0BNG?Z{_jRADv_W?8ko$)ooiw`5h5;HdR<B0EkxIhKyWXy-0
zo~$`w6y6vv=?e&+9%=^blY8~jpyb;D8$#RgYn&Gy{=@(}c+F>D>u!koF^9RdZl|!x
zYXUk+#g4x#=^p<57MD*!Ht6(&3ZVl({xmeY%*M0*@`oJUCuDu#&IN--tH#$JgsaV}
zf&5FZ%NYnA`0FV$X)(1m7kK_ajys^!mztwbJ7dTQIhue@p8DiuiYOEQZph#8V>>AY
zE`$!e4}3e^X+qW+ejE$kEV_V+75H6L6u`Q*)a6))(1BlvYt(NB4cOayL5@G5W1N>F
zthW*?`qWMEu7%r!0!@Std|t)FdwvxMpL`*Q3eeG|X2#8A2bn<5P$RO=@b%h%HAy%(
zmo2Pe-gH)5S1AvJ(1Fj3R@F<(u&pNSi@D6lV`uJoG@v6edXJLnbbY=<+7YAK5m7V>
zp#$H)-rLdaRtYZ{WfkKer-t)A-DyD9hYa?5)BH7JGnA#Y-u?KIub#%{ch?X)@av85
zMGx)ULc)&T%whGK-gvy|Lg>Id!(X=w1$3tU)Yp~%)wIq^YUn$XdCMpPI;FU`!Keya
zjjK2(9O+GqX)=Tkd_R4gnO8T!n%-8M7CMn?8Rd(sN48$@&ac?hi+^;;-e?Vw{Bbk2
zsS=COfp0$xhK3*PPTL1kBstHXX~=mPgV3RYZ9j4^-khJ!7g~n)Q>62PzaJp|HAzs~
zwuteDy~)BnYd7LP@a;!brrdhq#huGJaVai7pRF=62<HV~uP2!)^Bi2A_n_m3B|-;2
zp6vqJ1B)NO%3nk*nObyk)pH?q;OovND>#5(lo|Lrd-n~&7nUY6gbsY&d#KHP!)k3#
zC!YzlKKK&wcD@eTb_jQD65|Q3y5t?k{@P>Hd*jlGMd-kf&zJNcHCQM8*o&qQPT?wP
z=<-MCz&js*fArU)_~r%ZIza}Z1D{t%Y;%Zt{F{}xWucvx8^1oG5IXSjTz55eJu~$@
zFSvHZt8=zX5?70?Gu+wP`>4Z_oot%asyjoBzng#obX@(3#3C*wzdSA7+qhAya)btS
z<bQo%a`~7OJoCBm_Kl7OQxu>>GV`O8W;{Oavb=iN-7{}L<FH_TTwXGWjQB(krTxXv
zM_<a^#sE4cM;+rlH>8+y1V?VL+Js(413DJB|7N*{gx{%g%&NA(-tUeAbf)v!GB~YH
z?_axB@^`y8ei&B+)~C~SZz5_h^~&cg4=f1<WdsJ$S>AjXj(bBn`EOIpE7-gKHX6`5
z&x5J*2@(vX8;s@jz@2`90(6utGEkdL7LPCY6qP(5IsA*O2J53g#N$agyrIL`>s1+c
zR@f8+=oB`;k{;IP8t7|%6mgAxHxmu$T*}`qBc|^z^E^YnL3L+s3kB$?cL>IO+kAdo
zVL)HpMRu+l_Ytg5Vmf{4;1$eGlQk<9r^_Ub7(l0Vkg!)+ZvZPj$m_MQ9K4DKbfo32
z9)8_zNFuWm59}VB*h2w2`u<qf+23Ubw^py#mpAzk<Ep^=+-i?1d(irf@I-k%cbQCn
z69ecdyeYK2T|3+OujnN;&1^9f8qjGo`$Nv3nZT^i=XfaIboT}d(4j3Qej?>ku=YKy
zz8clT%!jK4>+`9vLCyx<yc%0nn=|4`Xo&%Ibcq)F%~!Szugw=Im;AFdKm$4@os(xB
z<0SN53*0CL$YnZEfQ~}1zDZ_I45g7px&6aa*jii#SRau)PTk^5Joggp*R1I}$ty8{
z&bhwq^|x3t=C-;d+eNd5Vl<#b(K|ZdTHZ-oGs<5whv6tg0XobrLLXidS$~nUi_7=<
z_d^#~4%WxPxI;z4ibDU^^_ySWR8fC0fR2Vn>}Cs^(s8?MsMn^7`8^uY`5fN1Ue(B2
z-4ZZOl75M_4h85uF>rpJXz%^K^v#(Fit|#@xH7Ol9D9Rx4L2;j+O^NIUc1P_ive_A
zzUp1cBbkv%au{?x)T9YR13K3!zej!A+smZ(bf~o@IubwuI@&HNtLYlowC&^@`F_0V
z!{SQ8`t;aQ1wXwND?-BW5IavOat;INTqDuV>0&kgX50|8{Iv1;1RBtZA7VQ!={0As
zGRx=2I$9{90G%BR!-2RBkvUfJI~PP4<{5D%V13FOIjeP@E`>23q{KO&K{H|i9eIX{
z_2Lvi3yCNGto8cS8)!i1d^aD3T$icPrf6Ywo_~`u3ee$u)Rh|7t|q-s_It`Fg6tu#
z7_5)cXkPhq@+hS$H}(y;JqJ|`pwo0ZEUtRmVEBdV7)3;D*L5_YGj*_{kwZCEgL&t(
zgm(UZ9|h<*oK?(whW~A};rZ!B?dp{iToG8G7mt4K)IW%3`w~ON%y4qyH3rZLtomzO
zOsd54fKPmV;Qgz7G@#=hY&(0Qs~I~z<(Mh+ukR@e&@r`{#WLPi=4V~{XBBl3dyFdt
z>tp5fZ|$mMlBok-I&W{dVj>36k$TT-9GFe^ldyFE@kKp}LNuV`E!g$?^n!czfSj#w
z!aLVF6re+(MzSMO!4s|678l;);@*KP0P90Lt#ki137KU1*1>rlvro$yK<AV1oig>Y
zj~)v@CvG$>^6{bpo$y_j>13UukYLR0c_t@Z5em?`6g%WxE70^xs6_lY;TvTG?gLmK
zuSb7^$uElubSJQqp4M_?#sE563vM#A={GIaN>+OI>zAd`fDR^fV$dOvL?!IFx5ZzW
zWg7+P)G%&%$V^_mb2&9KHz-lO43`hqr($i1^CNYWx3k*SFSmF}Z(;x)=Ia*%9{-%@
zsGj|EHm2Om8x81ONH5hq>WTcV+`7T4N3foc0(2<%)BOaWoZ99-=GC8BZDhygf%SPK
zvScHzJ88TmpyM0vPV@=`=qQqYI+@RY&hwz@OXgF{FK^I*&eqFk0^XT-EUdLOe@Axb
zI->xc@%rTvEA0>!6>c`iLd*#zE*GrNU_{=?+}9S{Rbfw_6^afl2GA*9bx>YRsQ<dT
zQ}Rougo*$S=!}$!om~{UvvxrbM<-x5?1ut$bXrSaVy?*EvE=qYKbrZM6qf_mXY||H
zb$ZvKMaP3jBtPzJ;xK^D&%d_{FQQotG{0A0P^Jh|LjyX4saK`wyU&wyki=Zb_;h#!
z1?V(=j^e-a__Il|CqG+W3YrJ^9<0xr!{K3BT+DCmrKexUX&tU$0G<0^BqGY<7&h%(
zK1!V~s{Mrqbm%{y4!~*KYY;zT$GUJZs-gg$<DX**RA#c$k}AXRSDPKNxNNXK?SqHG
z<#S=i%;p~5LA0Dx7(gfPrz1h&?-gcx3turKzL;t>pi|BHJ;dgWakrNOu^Z!VsyqtN
z`NtR8zUgM7&1jP5EW$_>fy)BxlPTFN7R|^xm3~lJkUBF}fB|$I{%I_s_6w`a?S@4h
zR^pe@fX>L3`#d?PN)+z#|LCVZwP=O{be_3C8<#8@bgOk-3UrNo`wo{0)`y|OS?Tjr
zFYHV#DZL~;p%w<vp~Ky^RO9K<7`Yg+G_e1f9u4R?->`Tk{VnrPOskoTnce0J3eZ{N
zw*B0)GRn`47W%hq(dvfF0P8~<Xl9?j=55(UI9(mL{c#Ed=#&dzy~|k@*;%$SHc%$>
zmJAK(R5E6?nsrd<r9C64?hWL0K><30-;JLP(p<XZym9l{rE)%DTsl~v_e_b*a%wa>
zZ=yZ@67404Fo2GfN2!t5&T-4V{OMZ;m1L!8Q0FV%oDGQ)Dz0c%^|N^36BM9h#64P(
zop+;}QA4)EnD<u!E)A>?_rV$7tlW3zIMGtwq1+G|44^ZcYi{^&I+8<TekMR9hLIBu
z=)BT=;vC0*W-l*(oY9Aeqznb<4Eqj^U;N?q%dC-bm2ZO69`_EcPYUNL$s1eGNau#I
z@q`cL`!Imcu(PYiA0DQIO|D+5_}~xCXh3Hx=&a7lU#x_EFJ7dLxN{Q)=&Ysn8?K;@
z?z4CKyi%qhYQm+0^)a8wQMflK8>zJ0a%e~MbrA#T2+QoTo1Q;?*?S}Pa>Ke?8ye72
zvuyY`7-;@}E_9<Y<%*#O3eXAN3@VZhE}Ktut8!_}Vq(Unfc0@c`kEPHWYEs!|AsCs
zFNp>N=uqyd-j$FeeKDIT?WTMZ_!JH3>@n3$(<Zp8qrZBfGv!@2QGkw`rbxBTyw|(C
ze+jR%Kd)rOC4=?p$R4WFCy^nNV5P?BI@wBK03C^ZzF>+OzwiE$(j1ca78cNe&Rp18
zu6g6pq06fQ)y3a_Gok<;1s_5=TTI7AD}$d}jzNr@xFoPXocnKcJl|<YHE}n88oe;%
zhXHi_vp4NCbVcX|53nQi>K~HPfX>90JDaC$ra`ub{-Jd+11$>BdD)&QA3sF?^42oD
zkr`=J0S*J!r;mwp<L7SLe89RmrnL2_3<Kz-Imgw>oQ$ix>Gl;%?$v6d0UcV6h5fcN
z^%&yId_xxAb9pF0r^2<1euPv&#k>Eb-khKr7cLR3&(3{wyY9VR3a<SYH{LRmZ496z
zm^^)qKL6c^#&vD?W61I+G@ui5b3IV(x`AP2TM{Nk^=&B%(5bWMrhhFuz<;&fw^Dhz
zpbGaEtdG(T(}lEIoL=dW^BVTnSu+fvbH<b*ywx=3Y*yNn=M9gxt<Zpu+|k=-;_n`L
zCJCIfmN8<OMgckj(wZNCe5i2E6MV*>;TF|}O91P$sMEUrOqtp(Jm^x>bDe+F7(k~+
z*F}_SoJP&zVaD|fi3C+>K&S6xT5`L0Z_XRHINTEX{45I4abZvMzKv6yWb{WB*L~@1
z!Nr61Iq!b8j*=@5fBI$;_hFrQ76#Bc>ysV2*Esd0=}EPN$X!YcG@x_;Q{DOBW1@@)
z4@aa`7vFzD0Xn`Vx2V2u*(ldg6E_#}9Qonm!1{Ro3?P>$Bj`+jO^m)Z<M{*w=%}(L
z_w@AhEMxu|GuyOZc#j5j3ZJpyM&Dje4u278NPVn+hyrx3#eYAwY1S$$DRV(8e<LUe
z7Yo)$USY|Cxc8=zq#`~;m^XkN1L&+as7=1K{Ys4<O-rgdF}j8ZbcXJ$6IWE9sMg#3
zV=2SE|A_*0l5ixf@oiN>s$p2wp~luo+#9eyf}G5;eUl!iGK+)4w8T)m7(gfQO?_*8
zM7g6P@1PL=)B9~SpfkuVEQ{CFo696Cr(wQ5J%Ivr76;UZYT6=N6H2(<3&yzIa4}$g
zTI5Iur%VmCPAp{%FYee7VE`SUhTeu}J^Kzfc~a-fR}8AqfR5u6$44<C+R}=aV{N`W
ztwJb3N06k@<i!a^F!UTMTr^l8jCZe%g>{-N^tnh3LI?gig^zwo`xH!}YtVDUOb|No
z_w&mdR3GFhY-~c$4Pym#d>jwt`3qHaq380=M}hTe6jj=MGI#dOw}j&hYz4v<83-Nt
z=XdN#r+jkFi9De3Aa&q<hVNIkSW^`;Lyif;@xUEv+KEHeUbGanUaWx5#iu1dRF0jl
zdm9u^4^cbG&PRfEUbLON6T^L`c&NKzi7P^-J_FEc%{fC#W2I&SJ;%cY(BV^4q)Pa3
z>2g8y*>X|c5Pnubr~aCBv}`x}PlqFIw@F{fx%mjNK6Ll8uBO)-ss3T9#&T;F5@!H9
zyh0V97~X$=;UA&BHAs8P(*)3wi4pm6{cb=W^c*2pgbw_;(f#&Biy`RwALw)9YvEvh
z_->lue}tBPfSi0lXX-=sr=xvVBgnA?bpDZx;=KC5&q59tpkqo|>7^6bu>m=2VPJjQ
z-=#ZY8+kM#Cm+yRxpu4Pd{!PO<X8eaORqcssjRZ`LJk+81Al(P+H0^r@XxL113K{M
zCs+bHan|Km7}jZCxX9|>=5O>1;sSIOd^mm_#!|?86gSf59(5nAg@W}-<ePV8{VQ{p
zCfh1?G9~U;KA`jCx(Oo@>(n}Q{;~vgs$4!F)K-TxLdPF2gbw`pvzc&gTUz5<2RS>h
zkoAE(IHD{$GUtg5XkJ)^4*b0A{W(1roxH06otNDK9RqIE&p>XuE@=M}19TSD-i=ix
zbOuAuAH%;y)(1YX%ZtipkG)<yLgT>#I;EM<iFaqNjA^e?ZC~t2lXnMnl<({IyJTKp
zgT^BU=)8|Tb%4&-yM46&<ky*ikQ96fSf9HTC<ChB+i6TObwLWOQSY#Tj(dEXQ2C^2
z$E@&q8YhyEPVRsX!EdiahVHdQE7I5pHXeIbVt|f=VDc9=E$4;DSL#k_*6C#8gTeX?
zy!*+{PTNsSGFTysqogp#0y=Ja@7^-!PD#XFA~%!}ryO<%bS7>MsZ&t-k<Yr8NN&|T
z9*O}v&TJ&PIp(5NC%a5|+KfCed=OZl&*%807qYI3=tmW_eNoXpj|Fths)GCP`Yiii
z2-Y}#|J2PTcR=Um#7>!xpmig(?qYyW6UTLir*oNOAE_T@l_h<9i4O$p<K{cfMyK0T
zdFSnWYM-IAqF96u{5UWCN<QA#MWE_u2m?p4)pu@xgbw_8m>Ph`-PJaxXc2uR5Pkdc
zo(!P#r&XXs0^9aUsQQX9VY5jY0id&4dmH~H{(|dxLIG8$PK|YQ09a>}z2=afMrzwo
z6&sz0v36L0gbuuOg2V*zpXVuT*fWw5Jr@NXl@L1c&VC$mC#6*qt&l?o=-|h=ZqtP2
zctcK?KUg2j<gOF_sL?3M2?ca~CfYM++2n#CM+wlmvMkE46<jv}Ib?uNhiAa%%6_OV
z<aGIg^(j#0(Eq3`yAL^`fX;IB*VC&r|4boA3D8OPO2%t`+O~ikGC=3mkAc(tTr<{?
z)8z}+2lavaX#CNAC&&o}bT;zbJ^n4u$U%-0pku%4FrsZOyAC;IfX+h-?KPj?iFU~8
z@&W6k6czM`{{Gk_$O#2>!Y}%_C$;MJK#mfiW8=J#8l`pNKkG#X=<KWr)h1eoCPL%s
z@&@aZUJ{E*G;5~j3l+Z={jTeJC_)E*d|vuv_@IMldmVB#0Ugnb$w-%w%7>7H0(82j
zB!xeaaXQ-gN|Z+$yS2}If%S=a=zkQDg*!@pNVT-n8LFCr(1AaX$of44!>5IdnVeYR
zPSkYseSd@w{QUK0$g1RE@6{sY$N)Ogrgt}QsZ70s90EXxCowPeD;xC($Z7Tj>+Bse
zv`ptUaRfR3fKKkGW}Y#<@NCGD0d#Cc_v^RxS63j10MMB+6lKxwdOZX=%^qNV2*&A#
z%ZN$0AjcojS$*!?>}Ik~0y#2(PRrS&2O|u-qmV-Y=yc`{GBT+4zlEG;cd$O~1k8tw
z*_M@%;}7VZ$(rb;?d>`RIWm9_AEkgRY2#ro<PZQl>HX{;BTd*o$Z2*1>tpvOSLfke
z>vPEQ2XsQ1n3JT<io7642GHUCSG*s<JbxQ<2ml?QkGY36fk_h3bCR1~!TL}xg;YBf
zIEz4zKcF*ZGHY;Xw4Vt%GJwuXdf0|aMDu&dApmsrVt1Vnhbr$wPO}SGAEV01wE}~(
zWav54{(z3_=HPjI2V5TH$N)N>&1fBNf8`y>Apmr?vqq~3qqh$rr`Z{-Pp#WQIQsT`
z1?c(e{(#QR>+jT|<=dwqM+VR-B=wA;F4kLzp07@T(1BmqS-vxmO%&tqg~rq61lA{@
zi}C(#Q7$aHx?;-ixY#}v(6RkEC28%{$N@cnUJ0QCpV#))SxcJ2)E%e~6`*rAa*RIz
zB`yN$gL4GylhLzh@{+YWifMKtMc|7k4+fzFpI3N{@i||zczvjk37|vyU`v4Rv2hX9
zhYQd-(og6g@}`M_`s_G>^`XeQlyA95cL?<<L+HT!P%zW<|ETb!hR!?g2p#x!IF6|#
zZ#iA{Ki4f{fR6AL#=Q)RS$1eVczduu$3EZE9{LDyLk<?uxrU9My!lMF7joPI9l}ue
z)ZoY`5s)JW==|5`mkC?G4sJjW{smZ{ymKau_&DZa$iV_S+=S)~g`6GfkmC;MSe@jP
z5olqjAV&<)am}lU_dBi83^{l^us)?3tpPcUoBw<J0dyG7&0hB9v?zwg;|}N~IEbB*
zrGH2cIbwj$9hwdMuZgO`kb}1c>%;Ny56634F+Jp90i9!hua>Xhy{aL{9nc}zP7SW2
zW*~wbF+k_3Q6+ohH-<IH!9NG<^E&hw<-6$49_W2~SU~4VJ9l3FslQUAJb!e2K30{w
z13E9R6UVhNSmL1ZhygmAV<Lt2N7^OOc<?r0ec<n7!~!~gL$~h`*0}jW^Ku7ttnRGk
zChL|pKtC6V0Xj0%oXaGm1=5g%w+8D|(N{;W<1~tc94w%t7)kD<ljPR}IqrbY5MTTI
z*1jkU$Poi{x?Mv(yTa1;p`S1CR$zT-)0D}J&I|p694w$?mVh^mk92+oIqrZ?x69!l
zVtJbX{2V6+=xme;+$`a0B!|9N2yY42=jg`9yTMMSXvo0=I%_)`86`7)IgsNH=-3{H
z*b1$;nL>^jprh$6RJ!a(N(Oyj68;%jpSzi(#5Y?Lt04yq=$Ko6X#L`GjT~~^0iA)7
zafb_@Mp=*}2I#Du%683g2$O-n2MYfbtk3a>L-TLHeODj{3+Rly(Mr7MT_S@VcR+`U
z$ofy!@K*}R5d(DGy0sZp<sw?4&jsM0fb}8tKY1~2s+|XYPZk!?i4?qgQnp4V0Xgn~
z&OZ?jsuqXU|6Ff~0Xi4+@LHmFfoNzvcnh#Tt0biDpJK(!AO{QRD49nY9Jg)%hOWol
z0iBudm&6+ODgU`2E(YkVb}{|jvLoGt#)CHp>qGU1@IYjugc5SFfDZQCX%f%Te_W8`
z4(KF@GEclZ)IEV5F+k_<A!pl#8h0tk!JC2gx#-@cW@5{OgB&cN^G{*L_1+#sDCD>U
zI(S*j$-WWY|J(-<19aS0!(6Q`+ee`B;7!5$^tfN&(pfzjgd8lOV{P|{Ox*F~SIBV(
zblie4ewQ0G<{(E5(9!VRjDBiZQ3pAA6R<wcPBQD^7VI*Rg9UWxbtR)C@OlN1;|}Q1
zb~WS3gSVm}M-0#@XR{yhSid9$Irzt5eeg3AqHiR(J~}9F$!hZCR$~F3#mY59ON%U1
z$Z-dB%=jmDruSZ^U#^ebHd5n1Cx+1Bf_<M9Lmi6k!}yF0I)LCT(K*@`0fe2YVGbjE
z=O+w7_~s2M)6KbP_I-PV4*dIop87hZ`kdueo)TOjPkxheRSD3c`Z2GWPF3Kogn2c`
z&&RjNiqJU^o7d^nWqsVE8;5r*%sQKXvhQjlbl~@m1CQB?bUvNe{KqIBGK2m10)^0l
z_d&lt@734OtP>ub*CSxQ^k)a*y2HP3%QS6Y?rPewqq-77lKs7zd(8+P_<d~WUrN{2
zbAFw@`0|ETE*({jKSBrIN2Bwj{Z{sTX!yp%f<!f+V<m(Rd|rQCHjggfA?%kF;eCG2
z&qNP}(76O#ck%YaUNYJj)VL`=A`7$BtTKcSd^|mo-xs#uESI-0W+i2vQ&t4+!)5DV
z_-y1FRk?$AELK$Z9@0MW&NTvUY-}V?g*3~5^yUs{N>Cx37ySK5qz?tma`~%u=|<Sh
zr<+x8?-+v}SDU?u&*U<EBu~c#>FE?(jFusE;GI*6V?9rs+<Sb2WtIvsF?i;W(1G_^
zIv9I&N22n|iJ=AaO1|P%B|xV=BdVb?vBZv-Hb!*OYIlVS&|xQ~Hz>j{6*0OikNA#T
z-^V>d)*0TXXM$QZGkR?LNTFTZN7>*gAE5*9V_Hk~{df13QYHn*@a_X)v^}6hm3b%O
ze6;Op)rjgRQbG@&ivc>ql6};<rd)}hd5j~t*Uq~HfX>Br?f1V5W|kynYhV58q;v0j
zh^#XS?6|SNx;jVq`@^*JuV*x~xIykRgbsZF;vwfyGH7`pUcBg*w&1ld7lY7&uREjF
z_oG%EO`UNC=EopSM3)Jm^F8N&Z|H@al!q4ibr@d42?2x-eET^RWnw<Fa?<ivPqr^R
zg83}o2w7*i^EcSgX?bqZ<Xlhv<I(H%ea(Q*;}A7d<IwT*bZkphMl{-6p$HxLdMWa=
z{x~CGYDHCeI&rXGP{9(R179!PoG$5Ot?doBdkNNKwoyD{2p#x&x!<Se$?#RL>wNN5
zm4$*d-|!ERb%xI?CisN<)r%|JZh=HU&B`*Va0ngvdfiYVdF;lhIF^EUJ@ZnIMlb`R
z1D}`66t={(??cWQV|m*HVa*#R2p#x!lv*xFR8b0HgY);1l~6+TZ!v@pd|nerk7R|d
zQYTWPxEr>Gr>Y1LI`DO8L6h;7I^E0N{xC}+viwVO$Pn3j!5z-a=wI$zuZ5okRnKPU
zY#e1Ebl~&4WnO<S-n}aAzD*#%UGvO{B|-;2o(TNAR5Hi${*`_=nVtRFDKUf&d^<eR
zuAP5MEpE3&#qXA(EM$v9=)l+Ao_Of7TS%7;u~O*YM;`TRJ7{E`NnywN&ibG^Mn&o`
zRDQ%)hE%X^^9UVyXJYzsuf|(G+Qp(aF77&bqI`r7yw65r*1B_%xH+RxWBFZ{RpC&C
z4tzW}j-GkE9WQ&FNmpP;EIX*73FzpVbG?!<d*6Q3qE-04y>tx<p#xtp6!G1M%G~7P
zZVvNKG3=evI|j(s3+}9Ltr9zmQD0$0n<{mmNq6W%=)k|fJ5-USpk*@Wd<?NVJC(@H
zU^7Ao-g(=6r@bPP;VYNTi&^Kt#HT_LI`IALV7~3;(1-8r{GPpJL{{lDXh6rPlUxpc
z*hT)4zhq_UTzwZ8LI>WtRP94sd_2Wei<X}Cb|POt0YV2pueDLSKR=bcvWJKbg6~}Y
z?LVZCY~A6VB`~^0d5TQ|BI^&tIZSd5FbEy^csM88(&#G1By(TQlsqCh>t%`1f%oy!
z93)`;k=5YgXTeZ7=+Y*G(1FjZcy6zYRK;cgdQ3b`lpgUI8K7hM^+wl&!N_&rWLx7>
zr`3BydSIPb&)&<6mUz)HlJ;nkqyOnA44@;S&||A^HgtHdMzlV0Uctl!p#xtp$&Trw
zVXZznYLipcXYiM51Q0s#&gbRO1-mKAe-bt38Z=&;x8rq@^?|QDQL~SzT%4tBynBA}
zK!QNf5TFxxwvzL!s)1%kG4t+Y7t`8&gbsXOH0B=;MWX_4oPV7W{bX*xz#gFk?>v!*
z%Bj0-+(Ue$Qc*71sz3(N!81Isy-|Gf&1s`a{ou926cs`TKCf>zqD0pws}gX}Zie0E
z+lt5OfUVc7wn8zvV-NhP_6uYcybmnP5IXSlg<E+31m4(j!foaE4R)C^zkGxad|t|@
z8M}xVvI??@ls_k!m7TLk=)kWNTnLq@PHcE^bNvh={mGYQGy$FdVKsiP@F%C0i|XF)
z(v!IfAavl@^Rw*NxW26^=;E2)Q!%N?e%#SUwq9`OtFV}`))xl1VUr7wB7gKhEJNtP
zuj}@>A6geQcRw_Vu*+7^yL%}Ep#vXJ@oSCqqzBmaZRxPMlWL|R6F|r8+3l-d@6lD!
zD;?46Z#QyT5jybwlrc5+XF#V+j_}EDK&L|R{*D${X9h0&zTR7zX8f9@nu%EtrOFUG
z@Z%u|<}K=T7?*!&EoUgxS6{zSgbsXO=k{%9Fw;ZU987&&WFsuqXoL=YJVo+VsV|=$
zsn6u$_WS&!xC9V7@cnd?U+B)iGh{a?KV7qq+E3-hYa;6mcdnjh)CdSZ_ciF2c-`8I
zuqVxcj=jJgO}mqmL(Xc`$e%C0Dnb!D@Xq7@4SlMegOdj%my?`ClyuMt9r*pRtT#kq
zU7}|;_OM%$<qs+xWe_^>J~`hwBYWqgj<X(9k-P1_QY1s@z~`mx)WrCHY0dWdU@B@?
zbHEm-0k&Sa$9Y2cR0&QIIb{EJra0!zK<L27;}+adQ07%wLGy90{82$^r9Gfi6Zkmw
zK)|s1k?Z=3Y)G=U3_=IqId_kV?Gc^j3h`|U5rS{;3ds;U@OeF`XHq_GWh)trQ7Av>
z`EVAej;u5M_?%p`?im*q#1y2E@l%+>F{%rp10T<}l<7N~Dwj8vDs=skrymDl5IXSl
zDG9mJ0<LP_-MP5E{aA#<*&Wb%PIHBrHo8VwhbT%aQMeR~M(DuLJ5%v5>zp1*2EE(G
zPx=TxD?lN1;OibVgjsJ{9Ort6k~y!xHUD(}KG=HY_dc;N8Soi9pBG-E{N6om2%!UC
zuNSns8t0^0zkB2NM(1|=+A{zh^}6>FdDRM$kD^r=E=6$n+5<XRnp2o1snGTX^VQ_Q
zx7wXDfX@5}gXdvQ@25WA;b*MhjIyEvbnuj3O3faYw@`oj?wL%CpPg4jwqEdcACOMe
z{~OgLkiq-s^7Rrqt9*nGe7(~2)xKZ*=5$5x0-lE0mu1Wyp#vY!#oL!2lt!P{(LbX`
z)ECHykwNId$1~O>X^}<{s!=MsuE5M$J3$5L`1%+n%pcu)=3X~8cUxIWdR`S-XZU!E
znAQJuvR%`}Ouuuvo%XMy450(RZi!#sbhz~UnB3!a*x*}Fh0CD`9r$=&Z8CRCZ5XW>
zB~;Uiu_rF05jybo>cl)4Cp%v*BVkA@z#HAJ%Zku}kB87^MIfs+cr`W3Mq%gI$dw%x
zWS!yT5vuxv32hQQ!OYpyZ&p3_!y<Ix<H056MAF2SS4zF9y#H`?&^Q#(kuMvmNYayW
zR4Z#ERMZ@Mg9dbBS5~gM-M)G;vUpDY4P68q7eWVqJ=Rt@!F{K&=idv;Ntxd13_>b|
z4!jS=jU96rgW=KY%eO|Hw*qPBm65F%+*uU0nKstGJ|d!Q=f%A+s#S*2fuEOE3Iv}w
zaIG{-wy@|Qf9)ZR0d!=kEYCZCNvh%Fq5SYgvzyHxp#z`S6JwvK_@`0hLT8r$6i8Rq
z$^bfxL?@rmx*vDa48BO7Fr?w5Lg>Jc8>HUvu$-b|mn_+R3~vt$imfSutyfVlwzA%%
zp3rxx`JSaq6A>1n1K&^ChxK=8f4@%Dc^Gtd%U@>EAE5*9tWZbDvlY%M(RTefe_ua~
zP!rHmLv3C;Gq+{gz7$EtZu`KP6`=#4m)U01G5-gT>0|<_vm6oIV{3}YI>Q~tu?3%3
zSCut%h^3Y<@DKZ!A#~t<T$pCBMk;I?$t(tR4f$?m_#<@S+t2E6a{`<V_EF|9Ubn`%
zo)$EqV}}wvUqI8)Psulz!|m*OPXM6<pO>YexBhbP(j=#-X7xFRrBVVwM>JrhS(o8@
zr>O#U^yQtbvLOXz>jfXr{dx{BsZ8_p>r0#@ZMhP6G7viOb&oW+SUE>6Ml0eOCrDYf
zB5sM$fse<d&(Gx>xqa@1gjT+9uD^=K5IXR6cMw)D$1a6jVv@R^9_o1zPKD5c&+BMn
zFW0Kk<?~0^c7I2@m_^(@WS!yTk&F5;Mqxtr@zdX@JaO8Nd1VM4_<dS>8?@fL(qa}W
zPsWw8xXGD(gbo$#b>SAQiZNBIH~H<sz;tQW8!Ph&9r(|2M{((9OSi^9Lrw;uV|VNH
zp0?KGILI*pbf%wb-6bQLE`l6ZK!^U$h<%WE06*l+%OhKNc%RP)ffSj;BPWoP0q7+E
zWccc#)LaTVCV)<=5Q*r0g&X;h!wTr^E+5loDqlDYIrDeH`UF@q$lg0yJ_9)!fX<_w
zjo~^w)en$k0_dbF+GR(4c1eRARzRn(As||4zVagE%*%oG`RgMQq+yjX3^^Hq&Zbe+
z8Ju6#7sxRIbYzp>&z(ynWrZA8Kxf!^b}{9lMh4`}%YyYW4%dqa*E)U!IT?TsSGwxi
zx4)=ALXHWb<LXZ&7I7*0<!R~O#*JE)BUV7iapH_n>*9#Vnf9UJhaAl`^D<z46xU?~
zJL_F#^<JKgzT^>U&H!|hMSZ{YylPs{3Z44G(tG4)0_dO#cK1B=R9UNz?~-tb$@#DX
zI%5|am~9O%#oMFDU%evbmY$ae>vOquX0CC0|5&>?(o*7tHZ=p#+1L4gd)qM21A6Ya
z37{i6IwMlxFCuO~s>l35`{PSiKnK;f9oez)huhQItmYy*!Ejy*Ss(cI5Bxdy`3N2O
zc@X{_drLqE{(N;VKnMPO^)*Rkec<zIT3W7gxwO&%t$RM8<H>Zc`vr@qJ+xky2p#x(
zxqQ4GK-B2S1~~$NPU2o<tgl6J806q3koAF&=M1l}qvp2IFyu4?I&VD6JSR@pDIg~l
z&~c_+YP>rja07BQ0Ui83#_p|23Kqyg0Xh;r9o<Tg-t0rp{2j2)X9x1`QcgZhhn##s
zXM!w0<dppLTF9{nbnZDj%`D5&b3%?7pi>fDa?4C%Z3J=%0G-!Lc*{pkOCgZcB@Wg(
z?t}A{i(dIEkP`#w6r@{fMtVOkfE+ZSGxH<-EMo=De;igoCzwWEpr5JlH8h^J+hBc`
ztN9<VlFZ(LoH9TM{=G2n2p#zGxz$oAWiNPTF_ShZKx{I>O$^YX&R5I&LjL-k1+`J_
z+xsL6crj#s;Nu}}dQu@YsaG;LW@lPLxmJY*bS_XBScu$MZ&tchZQX%&ws8k^3|#)0
z9$n@cAZU2&KK;D?tr(y~T$2^x;$aks6Kur{P~URG-vaA{D$P&77j5i!73YK_y=gIx
z1$4%*aGmQnOSR02OL6h}Y?bK_=;Vk8VYpv2yc6xB#3d15Ul0Rye(cmxTyrw`B^5i=
zRjP_Pj~4~&vu8t2LA<OGBT3WrIX0vD8WzwAczS7Hi(}s|IMYQ{X2v(p9neW*!E3&h
zzWf_<!~mVDI#RhlO}mFiJexR~pmu4z2w0zOsx<wZ5xw(}g9UWl2|m2XPP5X5Q|2Bl
z^Gpl7BXr=`KYtj=Sug&4>yQxh-J@8z%tr>H1Am=p_jQO@Rj!LZ<gfxdZt@{lJ`QB6
zKfOFHB@|J2g8-oezfaqo)r5Z@Yq=MHB=vOM%&l}t7;L>*2pS9js%BQDXZT!pd;Iw*
z2B8D*ymUUfam?^jK5N1g@o3q2TQouketfpKu&k`<ZEp%3BAX9E59Ol(omNj%Ba&yz
z@tsj4iRpjOl;MQH`mDHols?~%rSX++e!?aG?hFRd(T$Sz5xQUg`d@Z%U-sma4`@K=
z?dn-{U`fNP#_P_Plk197QGiZ<mXmd{IMuK?gTiL5SI+_NCRiWehxYaIYvSG&TNHtc
ziZWRkKxghvv(riqkx~3}uUk>cY4^|w9r%5IUZo!zWNOY_w3>HL<-Kai7C`90x5M}H
znYGx&*Y&>_8l-3)+iG?Mk@bP^r*EdTP9@jU%WlzWOnP2hb8JTFz{kU$FXmo2*%l<i
zzq{+*-pA<==&bt$3-%Z=;ofs!*?-h`ML`Ck1K;0YB}9LSA=vL=nEWJZk~&XFhR}h}
z%blHg{!<1!XW<TIk7xEL|1JS!o#ErL^3-9P+oiYQ&c%L3zmwLDLFmB8)27g`b@>w`
zsrHR$8%;VNiZub9pQnje90sGarDwcY${lKLsQ{ff3qPuozkexylXp?z2Y>F+5I?d$
z@OcH`Ud}mI)^{nh+@_MuOxK7(=)kvU9U{K7Pg9B4zMc>Mug{SQ)tDf3;Nv-9IE;)r
z8D5*wF4WGo_sC`ibmH!KKR3v$SB@)76x0|!bAA2>SfAbY{8Op=YE5A-L$B2R$09QT
z9U@Xbxm&kBQY~uvmR<j5OlAV;y#2?L>g$?7U)8vksPR0rjTO+jNUwFXT``dGTgiMh
z3Dv`x`RibP9uwVoS-bHrTUA)EqhuyTG6T>VtT8XO{H1AlAIH;=`L|hb0_gC&t0_$~
z++T&RdszV;&el$pXM#i><jnJd^)ckSBp1AGUj;cCfR3V#(teJ{PzU6g06LbHp7Hbw
z-&AYULMKu!qkLHrI`H#pj&E|DkI27J$ied>>jOV-v^`|#4mES;Ei%JOdi^LU>O$zi
z$8$GkSecjar4sag#~BD6`0>Zb@j#xxP(>GVOaPs+!Sv@#^51y+jqe32%2^Gv0y?!;
z-9-tE(yX=5@?*<VJMPW%AnOdD7g4cl(3LljWTEk706Ld>16W@^d7=Z2#{|%Ue=j*J
zp!4`=fFzl>c%;+__pOniSMuk%!TPiqEGeq3JvM^AcRK^21Haz*ulMNLue?=b%FzsX
zpE;Ov#}c6fUoQp4c&&%V3SNTSQSO~x>$Y5gjv%l4qX(m5-3@v5eg_?zX=_}_`oQNk
z^Fq^m<@&GvSGDF(On+#<D?{kO=cN^;OLS3Xcb_Xm>)tPmOSkM1I`Hu*z37>uKVitu
z<?3CdX?3I)L+HTALr1I3D-`}uGvMjgq%_(SjlYJh58RnpP>^?A%D6Og3U5wFBu9Zo
z=)mXoIQ@O@;x_R*N{~fHPnl!bAE5&u4=>8GpX?*ORm$=jb32`NfDE9sb0%Ue#?k?+
z(ZX6{uI_I@0O<I?^bB8G93BaobnJVWI>p_56|A#PyeaLxyZa^H)EM&gL#Y#gKxaLq
znb6pWS}pAX5eMF^@w^N|2mXGopW;bu?6XXM0USS+Ifll|-4QzQ^}2*Ipcz^BucffZ
zFh!mU@(=@bT0i_PlF$<Tz#xBgyvN#CioXKZdDMy1ai+B?#Qp1zn#5HHJuIN}qBt?R
zbpPwjsq_xa@OT4*JD|h*GVk-mm!pGO$?+1_>~Do)fX*gUzKXPM=+9dNnk{QMt4nxJ
zus+q4_u5>U`d&_-FO;GWp+I2)9VVHub*=gjKF=S7u2CN2X59fDAHL5AJO;rg15*qs
zS}pT&Vt~%mlxtZf%!bOx)TUye_sHt-9AJGGmPD_XFu1p*jC*SLeO#Q!0y-nv_jYI^
zjQxL~99)!rlNjv|=#=xd{FNNe82%Y#JG+DD8xsR`d@Q{T*KhCUvN*JKMRt8Q!Lx()
zdCy}^G2`9)@6^V<j_L#xH!MO2e!kFeyU&rbn&T6fy6ShpqN?SO(19O+1{HbQ`sZ)g
z4cxCddMu+_Bm?ODeSS{<iFR~`UH7^>LpaqD0YV4<+*IqGkC*mDF(1r~-N*6NEUN+t
z9r(OV82ctKUm+_Qa9@qJp|btH!v?lqLwmj_=wZ`UKJ}m9L`rUWlmR;I$Lj~;18IC~
zpDnhQ*sU1s0iCRdYdn|e_I{jitmBpp?v57#bbN~jv#5oe*#_pf=^HO+Rqe2X_2J7<
zEE>)kdv%stDY&$6V6zO+VQIV?!{hSuDhK0@U`@_`8hb#;apYAN4khOJ`}$@E=1**z
z0HE`Gb*U%AR3)@7U+hAOLH5xO3s@h<e1086|K@D@S<=xXDw<DafKEisZ}uuBw^xa6
zAubX6*KgSaI@?clbNfcl%US-+R$-WCHxK}HrmPlKyHX7+aan)qN_oX!>|6%xBYBEy
zDBdf_x?|{hw5?7za~YtMbL^)^&0Z}~;#EGQcCCWL9?+Ta*4wz5?bg92uJo_`v$~l8
zphF+7n_}2o;mB#$GxvN`VPuCHtPgj9^#|$Vm)sv3EjL;g__@jeox>+}J$u~53s3mR
z3MZb*RoVkOPuz%kwj}RAe;qVpbUJ~UN&wJ--(TIi1l9+Bf3*zInJ?6yK1CaLWJ%L%
z+3(loVGrm$zg^|wENUFJkK**<`5kX20O;iUclh_Koi$2&%lv@)xPW7a39QeZ3XwnZ
zO+QxuYOC9pzcRa92I$b;^x|t8q`th`tQyF_<hpE+(1G8t%a{*2Jy~<WD7-OT(iads
zt%T5lpWg#ojl!QUGSCdgh!_xD3Tq_;bb7PfR7{SpJaD3aV4IZV{I`n{S!ek5*s4z^
zk@~X*rwkU$)z_y|qGJ#`@b?weICFFj3+e92ohWAU;w1jsBXr<>eCMzd^uPRAU2@VY
z=WxnN0)URV)jI#g#pIAj<-(;dWxNtQ7m@XWkLO)<rBZzH`weyfI}yQ>%Wh?WPTI3%
zt*15<{LdIlr%ZJ&F4`k>;Ok}3PE(xs_RwJB=jB9}Q9}(egbsXON~rMIaT>X+Ix}nL
zt-5g|cobNlujW3t9lwY6N6l|-D0hsTVi7v<?T7b_vx{#@#Thr>H+&+-%)J<d4t!pl
z5kDq<q|$Rfv6<Xc`FueG4d}SyqPOL1pO>UiDf_xmU1CN7I{NdnoYGB{0=*t;N9nYl
zLpTPo&JK^?nh-5e@|aIF8d3&cvBV&B;NM&E?*7N+J!cz(sh-W@oIk_<pyM$&4&-6h
zX}Gff@YU?RMXD6i@xa%M;>|ES+pK=*!okap+VP!IG{Sko9hs7W$UgZuzY{ja&+7iG
z(nSF}PFr|RH=!iaqnmQh&t4iu<LJTGYri=Aws76b`_*0ZzVrA^F$|z{@q<v+i1xFc
zzTRuHJ0%47(14ESE<;ONG6Aoo8#C96JmFgupkp!CPieI3{*Q8<qssDU@(PX)tdG?2
zYr+-buPiR+vn)*}4o(<A=PQxRDNB|ny@djv5k0e0r_q2;sL`BB;N%bPySJi$9V!V1
zq5vI}J6sC3Od+U1<BbKkoGk|&Em$7`Y=|H+jSlNf7{h_PTKO{!pu<Qp-cS<ww8f(Q
z53RnS3lSR7>F39m$!c1h`=mxOCq*7Hg93COggalI)g7H%ozLL#UJBmFT>$IDnR|Uk
z_d;CQPmH7rL+bYz7(geTv(1|Jh@{qg&AWvg?bL`y=)lj*a}uYOf&<Q9$|Ny;VRn~W
zlNF%@KaNQmPQ?4JVdnPNZ0idzVp->D!1{;>NpA;!I;=3&@p<t4nMp?mpmRi4bML#%
z`Sm-S<iAL&w5Ln}o%;O$dj9He#4n5CUkbnEo)@zsbl}$s8z02Do(T`Ub-Zp+&c)Vm
zM}W|QcitV4@b=+MOm%&^^G$1OSEiX7S!eio;P)Xj5IXSj9NCd%^fQ%Y(B6L$9IzTb
zW&-H^5Tw9dXS;bwLptic)v@xE70?l%z7SC$=slbN(?@fn=hWwUDr9}&^KxGv9Gdur
zW=rZEC>EdSPs#vvNWu*5$}Y7h|H=JZvu(_;Z35_E*&0Nx2A*uD5rrKM+<vvniqL`Y
z?_Hf@vgI^xD$em<6f560ht|%6^-<CI<R51A;D(UvLiown6_tEICq13fU7hq#lib69
zW$tFqXiGo`ejkYo(1E|tVeK4PAD7LmZe_)6I&yb{ua!g!vE&0f@cU7gfR1<IHFi$?
zd~o_KYtK6+p*$`?r?pkV({58gPAp>eV$Tzz-nFw}eTa2bEGBxEpN<S|6D5nt`{V;U
z0f~y^HmQ&6zqx29QRaJ$TLL;gVy&vZ!B}6-IL$#@rq425fX=Dtuun&3Quhb4?=>bb
zl>GXy7aLFh`xor-Bmc)A;m4oHKfQ0Jo{Kb+ilIL9<cZ3id_aezk~~oREcH{$TU)=m
z7|0YX0iADuL?~zqNb-`>`0r$`dfwv#bhuv!Ib_H(T%%Ke5mz@-Z@ESR)~73>=7^BL
z&$5x;ollR)&p98^8M7}Km`sy+E@a+!qF#DN$P&<rr*O(6q$^)5Dnez?=(zE50Xi)<
zej!sb-CnCrZDd{{k<)8u!1`p>$Sql1^l$R~j4@s0?3&95bX1qnq>YvbD}OsYodjcr
zFIoaROQRPYoRmijqV1*TNp2T%aREB?Esa~n_e{yTDA7N!?vHM)k%RS-jLqI&;jl~9
zLD5&Jeyh;W2XyuoM)@x56N}tvU8R(!>uazCbc{RQZryJE%8$RmJUU0l!OaEez~7I(
zMh4cWI$m<}RK!B0ZUI);pwSYa59nxlU-~HTBOKc~8~rzM`#ZNKpaXyXf(y{OY9!++
zDr;Kl_dxFF<%*D?HBzuX@Yg}|0Uh}3AeMm6XU#iyc5O7yY;Q~QvQ!3Vxez+=@0o?a
zU!4`O^EsOMWSpjHY)mEzQ6q_2@jSxuz|VtURE|Ojt~C<LMWS2Gn55$}03E62i)`dk
zPSt61yBXgbYVAz`osLtvQe6qjXNwHI=T5Fq{b2=ks)D+5DhXV=tHQ&7G*l<-&Xa&`
zht%oc<A0Z?pV;1INT)cE6VCv2{FH57Ncn{_LgpfUy=UuwngBX{M>YLV?`xfT7E@N`
zTfcvs70~${yu(3OSo+gj;6taj`@Zu0X|O)y8ex*Uq>As7zG*av(|1c`06InHaYe@2
zdVC^=&zpTJSEx(?9plcc7z2|-=PmE_oL&5|Ju9H2#52>QQfaenc=x{h6RFT&^QXZ2
zd=?DdIZ@{Ob&_9d&(RrUkOAmO+M;hwo}2Hw*j&Bxjpufd37{j8rS?uJYd3M_LA=eR
z+O2d}Kxb5Sp7M3=gN_#?cZcQpl6mKe!TL<caoo>1^)lLcozzfXn(284pwntwIN-ZH
zKZ19N{G^pa5^n<NSbCTLx`|`XWvt%5H5zG`!3yYH3f&}o#Wj|0-Ba+Xn02FSo(Qau
zaqp{?viujVAKm#*Hr(E8W&k>a!XGrYe%?q<!N!bzm&htJ0d%_bo<0^AA79puD|-@G
zC{WLe(1Cwm#&LYTb)#~J_Gl5!_~4r(`wk&kAM){MB3I`sqz@{Tk8YDT_?H1X54cri
zgIdbWo%rPgx*UIH+XFgs+F|uv*SG|EcI!6>N(avg06OsZ73>gz^$|6`HiH+xyT%;m
z(z>0(CSL~Vc)0D|E;uxqTU;0Z@F#M1(jL%hu}+e_EyQ8T8q=08WK_f}0O&OBM)aXV
z=?r<eNEWc!57l>0{sG+w5J>2$igcl{P@Tbd5YnNi$`Cs6?KziyA@-1e>mD7~M3w?N
zwA&w{1HXT0#&XA|J?O3artJk=8ndW3N(deJbsf2um?y@kOqM}@J~S}&4Iddo2mU-*
zFI86M^$iq<!9O-Udvkgc0YV4<KACA=D@vuade+}7b9)uTQ?BBUk*ycJvq#yjr=MTk
zVR|+8{6*u*?w5Ro4*YxV&vl!{bH6$mXPlU<FR?C^lR-Eyc;~64ZMs4KCo&tMoCHVW
zb9PAkz~>e8R9ajhpGv;HcGumWt7>fs;k@AEdGV{m{t|0bSKPtV+b^9T*u@}p$YFQP
z;6JAzb>QO}l7BJq-NK~rdQ$}-X1eE<Cc^Q+9TNY^gPlalazRw3``i^$X(~Xc-*B^W
z^~!gAk;b)!huaikL;sL%hw$<I*}T+$+w?ALPlrzQt$aU@7(i!7G~<owsgm>|q4O+_
zf07<*0y=^#CiK5EIh60(x%#l3<@TfkbX0_G)?84(>>tc*D%NdybqpPW^%=fj)nZLm
z$P9h{GzQRlVbhS^`7CS`ax?**?DVjJybeBM#r~A^-DQ$hDnLhVNWI(Q_xh^6m3d|;
z<CM+NA+kR3{eAj|44$}7U-_Fq!8-lvMwJYN4*Yxpe;%wQLI=J*E3_LfEE658L!YbV
z0(1htjyh!uKZu1sSG#tAtPgxVP49mXTv<{NfyR>$=$I^@*XRD{RSS*B6423FCT2+*
z?DMI$UO0nEb#mqcbp9BzhrF&+=w0fKv}LW#DqGtJ>of9`MT<{$MGV?c^8uZEdJ^Yd
zkH^HsO7vc&lB?xg0y<lCK@W&-67OyI_b0R_F%fbhbl|U>f9*Wj;Ql?6bP~e8#8zY%
zM~2XWZ$Ba5K2AoK`bUi0(+?lb6xej(!8)IM?tOQeUyY!o?&fdS8DaHMKnMQ3K_x&Z
zoFmU{(OX@^-s@RM8I5uP8A1o%ncpY&|KaSu|Ed1}$B)b2BRk3}j;+jWLPoO6h>TDq
zdvwg~L`K;o$taSoIw`WLh(uQQOtLDYq3`FH=j(mBJifm?E{}iUdU@P$kLUAwp676$
z=Ve!gc-P68A0O|FdQC0wp!JEmU?uPC?n0_^vGtY%rRcL#M2E#V`;jD9aj5$@@h40p
z3aKuT4tQNXbGJl6ImJ*WKi-*cRbFsN0n!1FAII6eAA!MPM9Yt<7lQ+wpYLv?^+}?b
zx4iaEfH>NJxB9gDv0MV8V<!JHK|^jncyKpoX|y@Z6OZVCe+N-ObmZeE#12l~VE%p8
ze!tf8BmeGCv_9b93kZk~`1b-lq7(eSH@x2ZN@M@SKBvC+t{??O=Zr(f#lo|-xz-#y
zJKM9`*LQ!Q^|8J1t8AZ<{)_Tym1R3-TXh1WlXd01s#ppM+1fL|fdS)t9C%0vJin5R
zjY5|Ve6C}TE~EpVUn%ST%Px`!PGscVQsBLsXGn?YJW|Qb32}-t>TEpf7RZs2*Zm!?
zGk70GWPN<wy5eRM_IjEE>40+`Gf|C|i&qoD9AiZ1TcqNUDF4kce8L$LvB(2+jEIiT
zi3zTYlZW0<6qFR^>>TCq--7D{&Xq=HQIWFvJaI9#l!mg;cRdBt0XrAA>x(O1J=BgJ
z&z6u5xE>$#o3x!}DK(hGf#_UqS-OAfvUET8y9^_nXnow74aiTaNGh<-yw@_i)qXb%
z(gDve%DWOhX1At3{4-N8`LH7N!v)d-e;@XEU7Sk~kCL;f!e_UF1LtckAsz5@n}VdY
z4bt-b^Kyli=S)V4yQLtV|8FjCEy~yc9@j{#?@WO=+P#S&9a`XXiF415o^EI{@NoZp
z!*hM-Uq1(=Lk~FDzvao|s_52z{DN<_1?bGFLptDnRQ|GQzRv8yRvn69PpXTqKY1Y?
zu=8G7&zn8A_pF+Z-ztaV=FabKz#WHRpC*4<e_k`P6q`D>ET%D`7DmMNuoM287?LN_
zm)l3YKBajidKq#(;Q7v#W%{J@ZQF@`s-GmS1Nth}h>q0QN2AV*Rh!u70C-3Tylxa*
z$XL$*V>ZMb1w=<bZfe9%gPaC)cGuzd3tZ2zgV5NO&;HLahk)n^Sw|Jtsl80b?pyGP
zPSp|J#L&W@%$TEq=&07KeU0<nD{wWu{!-l1Nqct<t`7}xo;uV{To29u@s*-3XOk>@
zSB(;KJ>YRTv3@H%-7G8I)W7ztcp1BKKjeDA{Zi0BD-cpl6J{?!Pk;XG_T>~r$Bm6}
zjd|;vf0e|)Hlb9SN@GN)yr4<2<Z4M}qo79q*pP%bBcgNqAd9yOfvRSXJ8SkzesgaB
zH@N)*`<(Mns%~9~=iy^!rg(O(dou;n0begF=6?Kb_c-CIv5@c9o!~HG59xsGDPV0s
zbL5ge{@3%8#q1CK4ZM&J_;--(GbMHVZf_z)xQ|~^OD>_{fONpQie;URyhrG9y0$IU
zlFA~1%d2Re%a2Muh$8nK7XSV&WV+t|Pbs7WzJ8^X5iW^;ZW0+@dr*6PgKjkr(b;=Z
zy`|=zmM(ke^SzUI^vhfz9dN(itv(fE(1_s~SFk)={VGTihv+!|)^cIfIOtZ(*?#n%
z<TdT(uW+5gK3txS_ir0KJ07wSDb&E#`MVp^0bk$g*N<6tlTIsqc8{huv%6PZ0O^2z
z22yO>BMby4X=Z*k<Jlis*&{j&-i0S032r*{S15`8Ijzpa3+aH@)p{GtM}O$DP5Sd6
z(8-ZMG+thT>kK*vNd4Xo4oNA$>-Z#h<mcZT)sPO@`L|`?*cP84dusX~iRsgDqBuwg
zynp^O%Q%-W#lZgji{9@@r+{iaqyz4k4(UCg0Gp|jQ3Zhseg6zS1xN?HZVdR1XO=&k
z$Sf6O4{7hcokI!ffa~czK%jePtVMg&UGWo6ttq_w3*3Hzjy0}I&n~Mvkb$wdy@_GI
zI}XwT=jxIoH+=bMS6p-RP{=ElUMEXP2VBozzoJVGwqazW3^)6XtVXms5S=>uQzOh?
zv4Qu~50DuSiRg|jqxHF{VSD4=K>AM?e(FC{$KShVAv*aa3?)_y8$ndl5;?|a2dpg-
z9nud)B!?9wHnKuIVkMs3(BnXK*4dj5g{ppW*!h!DGg&(}JhFt=$347m_nmcrH?`Hr
zw6ehawpox4c)rIst~_|QHfs3yz)HUFv*9=|NC!NA3I=0>a7L{|#wNM?v)Uhvq!1mE
z_ZD*Vt>e!t!<x-mkKg>dv53~kF4FH`w2)U?wlVSWlObRAYD6b5w6Xl$seI<bi2a-2
z#;QuZARVytvA?HJWNN*yrYM(x!!UJpRu|GC2kz%9napA;V;`T64PoFv^J>>e3eo}h
zOUfcWGC54IB$YqzsHWieQyU9#ox%TeD0y@JPGy9*{(Tdp(Nw#7E?5VA{Yq9PDmz6J
zV9`=`shqPop`8G^9<UEiXyah)+?i0tkm53Zc_u;uqyzSmUXlB3zC%Z&HOYA3m-gte
zJ)%=tIHLdHXXjb6{DKE<O%npVkPg@<&EaLpyGvi+bbh(P^{<8X^zuC1et}NC)=ILj
zzm|5wX}1COoa?8nAsz5|Hb|@=n!D90{gV3;_n`dln>a`Z?5s6BF0^)U!KTZ7y!TJT
zR;ezcqp&`;QR){mGp%y<{kq}%%an-DfoksigBPi!1g<jo{#>lC>z;$_49<1_S?3Fp
zIA_^Q5?5_f?eaw85S`yvn&IB()Ea;A9NYQ$ZZcgL(gF9~^@ysSn9zqX_gNE?U*vPY
z7$F_-e&Yj6ChvBC-|fd<nx{_mJH48oMe8$XF4zA0eAnJ?Z1LC&@=fakNC%v&_32Wb
z$8pK>gol5V$IpNN;R5M^?^Bd)%$~U)DSYvsde(baU_?_F(gF9qh2HJoCHK>UbD!#a
zt?fL7C?Os2{KD0$MShAIn{T^S%TnE7czAjSt+Nc#vX}YoQR|YM^&ZZX5?ck34!9o5
zkJ_o1OP~C5<CSS%^`MKuLporej58+<JriBnD!<C%LWLc@6cC-G#DZlEi7r)_zKGbY
z)6FpLPNVg4G|g@QlR{VGo8B+5eTL>d0nuTdEc-@YxEF%`UpF4o0ne`kgV{&pizhuX
zM;FoIcddHh-NY<~IUI-%<JHH@3Vrl6n6o?u*BP9v9{2BS@S59u%po8;`BF=!<JY(G
zm=lNS)aC@4E*R2{VvZ%E^T|I?hDO~W3v+OY&cmRDq&^?7ub8ttiPm|}V)kC;l_Re)
zryJ3k7c8P`CXpD&oGe7=Os;C(TEAvG=C~j_?H6R`jtfcu*I5D4DH9&h9v{fLi>-$e
z(V=~PhP@~4j~wQVOrY)8`LB=T{bd}UVooWdGmuKVv5K?k#T-1Mv;FCk|JtctV$9J+
zbkuKG4qPuDJcv0Qhz=$7$?lq}n;V$3{28tDnM8l5!7=q0m_tBx950OxF1}N_k2!IO
z4*fx~U$en_E|_D9=tS<@u)AG5;fFamMCZJ(G3)WHgm0L$JC4@5gYTjD*pCx$FsB>Q
zSu6h4^Hj=#4Rf*(ouwM5A0tvVB0t9-G4*?q9dUtl!21?9W_8a`#~C@DmDS_kPI^4V
zK|0|5s&6d`k0@!N=+C=*UwZ4@95=?$I!FIV;_uh~P+NWTQH^}BM0qo$1I`uk)L8KX
z1$&;r#}l5Tsin-}h>jXv-EGq5o(l@=4DQPDDc98z9ljT?nkOA*4=s;2>f4^D;wFN0
z!21n@Ll^WP8)+JS8$Et_wQ4G&e-y4W*av@Al6~$_wWG9#zj2`K_0<$ahpc2HQD&Z6
zHZ}U`_mxd6Z(~RYoa^=heUpj2Z&cThwpLp>=GF2-I^bLv`r~8%kp&DVTkgGdU_LN4
zJ%ZNfj$ebA-rS-i_J4W>h)y_lca0Ejbsgr|BRV8+E%l~S9<;vv9Zwyw;NH!P=p^H8
zdqV2O4t;!>_vA<Edg}BrTA$M`bHdVRha%ag9*TZxzAsz=>45vrX=F24?R$*NPo?Zb
zGgF6_7o-F3yYhZ#;&*GR(QDH30ZVpsR8o)*AMiP(ViHBkDcvp8lC6uHfB1VVHy|Bw
zJ?^rr?Czf{O*t&}46f}o9IHljSba<0H7O*Tx1M|G{OHxZE^Ht0`uvv6T)k|y#Cvoq
z+K0chXI=quJztaQS%3D~Pm6rylb_qPHrV}ycKpcpnxzpaqF1H{?5rrQGc5^-j?8L)
z%|5OvRMsgBcVm036p!fazUrwB^%Kc9Hu>Irxmcl20ns57xLifHeZO(dtajoir+n`2
z5LzDs-QjA7lShd%$zE?oIPaPg5FOF;g{CEcHaB|)R$XRQU8?YiP8(jR$k6;E$yGi-
zzR^|UJOxCjQBbfV%9tH@y_#WZZRk4L?jTwp&e#tpbV(^TC^_ezS;eSk6A&FqyPBDF
z3K{3TQ0u_t>SlgCqywH`lElZtf9VenT)0n{#Ii_6r;g~f;i=u#3{FtTmP#f>XNHwf
zB04Ir+rt0)Rwt!KFW1Dnl6duhMC*LNMg7B9CR)Sa<f0qWOU|_^h>mOBe7U<^m6fO!
z8^z4ufbYhL&d?L``rmpi?%4O%84(@9ecM;_x!XrDr+)yg4^hRTZ}g_eSx(X%W|y_l
zIhBIwfZyvkMsz$?T_cK}+1Ro5Fd{nqD@&3O+B}3Xr~d<5AKUN>!%JJ;A()eb=rB}U
z1X7xP7{MH4L?<ov&QtYlTm`o8jEGJ}jKOK<!KM52uh^xiSl*lW_oMZhq2NjWS+Qn-
zIVp(F@bUppo7?f31uN#MBuZt>#)uC1yQPeX&V^VKiy5xz&sgXFKD0i!TkBF9domfY
zeNRDj(t@AYa=uzF#~fos=k?jzbMcpM&q}{h>OFZW$ea<<0beiJZoOz`mAqYut!Lyt
zTA$R<vb!D+eB`mtS%^-XEbFJ`1ss_SuKa@Rd}X91qyx_NQSsB?U(rUwrpt`qI6L#T
zcp)9|{<-VSH|JkN`c`3I)P~rIS*E9Z;rf8<iFEJ}DiW`i$A0&=6wxsV`Lil*GnP?D
zMoU_*+WXTB(gEkPu9IW862Es4bEFWRNVRaeqOF-p?7Feh1J?&!&m|mHc>9ypiTTh&
zMHadNYt@KOguK2}yA8h|c079_I(PQZQTnSSIAM+yqT{k;ec)-_AAZc)c!$=9;sG(E
z<3Zm+?EI=mbduJ>>pe<wUogiD(fRt;=@nIFrUvFnAv$lqk*T~8VI*MA##^*Ly!n9=
zM1!w+F{c{Qd3|JRD6Yrw3FdeqI%GCRjO0z6|1d`i(Xo58!)!oysSR^B-k|jf4EKqi
zRXlhcbE*-YN7?VsQbkcDV2&4}BQG0Z%C=}7i#bw=&XB%=(J7MD4$Rr;M(eZnAy_pf
zL3JB*su3N&K62@5&wKNj<Avxvi7t9v!LX%|IZ}v@k1!2``bAMH%-QHd>*H;Gg;?UQ
z#Q&bth3FVkF8pG7B&Ce4#|zO(+{~7{l0tV0bEFU*{jw?9+@VkDn6uG|)~EF25I(!=
zVkG8NBRU5n8ZOURs|aF_7ov0T!dlUTe!Kr&e-NEok=$@SFNsuaJsTZpeTZmh-wr5U
z`d=SJXYp4o?MSmj1GXM7M2FMoDVsr0-74ltAv!ysQj%jC@3a2*`reM#=NDn;KB0*3
zzw2r>qGL=~eKyVdd?dCWFGR;_O=T|Bjp~2bXGDi`Fd7$sf}0on{`*E7Tp#fM*|_-U
zMCzo*{rJ;y*AK8fZzDiD;C&|ec`qK(F{o=!x71~n{AO+K+kQLULIKf{<`oi(mOa&p
zpBK*)t-v$vw!-xR=gKp>S=G)JD~WyIoPg+DU|=<QJZhu;TU~;9i)Skf59xr<kv`Ha
z^TVq9d}&fQPL$?Z$`dcdKA+?N^qFlJbd=Y8_hr}N`74F!fS*fjK+Xkr?lSF^_`PDo
zKESSdTWG|4zZ%j3kLQb5?6=Y)3f_^Bilz<wNxy;Z3_6pezfCUYnF(Xx&sB$94>;G-
z1iAC8j$&oZAwqPrG|eyUri;a3PIC*|@%&KHXi)aey@j&!4?2wk$K=8hohV6$P@ja%
zUr{`NUynK7x}uKg%q0#rzi+(W9nE-;KfkEDf(X%BskfeTrtFEg$kMtT&6P*i+>F*o
zefZ5J{hksZ_4#Q_p_uwh;gAmaf4Ro}KK-OI34P3EzsCQVAEdB{bim_KO{T~ucR{__
ze9taY#UX+V2kC(S2m7R8YjbvaP*6|Wqoq5Xut5arfXB1w?G26y#cPQdu5a}8ocQkD
z{2Hz^_;+Egw;ApDZu=F*xtoU1)&%8KARVv|SI7^QMI}DgdexN_%Hc?yC8Pt+bvC(J
z^SiISE-BNv$b~hZRSrl8oGU1`dsV?ia;C|0#rkrtzV&hwTpw^Q+tg^o_iSs+cE=Z9
zyRy!%S0g&?56jD47Z)`BmOlyX$*c+C5uItNM(xVAr;bB>KU3z4cP^?UIvf<bLbD4N
zg~5sm>q#~d<CKsN*g2+|I*9g$k7rf0A5+wCu74wqXq}r)huCfz2_G2j_IRS=+b>iA
z>457=)5#7^ZnE%CUDafYVUZT{f^@*+Fsw_H=$>WmafaJ{7OgSIt)w6w@c3c9CeXLQ
z-`JA;M_xTBa8iEv6<i;1J!fuuG#vE5zMK5l%)Y6oU!DNzfY%?tJI-u^<<HOf{?0ax
z&7;yufpoyR=F;g3-kEPw)+F`_y!9D5YYFLqbCDj|=&^R9d8H+)KsfIm%EbZcfOBPq
zbJJZrrvH`o-Q@7yPZCiZFVQ-m>ZVUBTm9pjk@IuCIbmU>8qrbo<MPWqCCdIT@?-In
zTiOF&kPg^cXQAnc)WL#@IsVk|86ESd6(Ak(yttzCOw4iTI@5A3+X<rIuXQLP9dJGU
zm#O5MzTC7-&_7OCxF4q0-+<PcMIiXriM}E7Np5@XUrvYlQXn00t|6<ch|Pz$Z|N9$
z2%Tr^wz7wG!25*54_lVALfLbPpL1%|pT=KShjhR`tFL(;7v`&;J(x)vCB|BAP6_FN
zb5$Lm{mg9ISg=GKD?V*KFgWr8t}}RE1fS9#D!VIvX&_lB?!%e4%+-(%xSqrao6GAe
zi4FL)-(eF%2b{to9q@dgPh56dY6`dH5X?3+$-ZBx4(WjFX^wg<&X_}qqdLefE1DZm
z!3gPq`{hJsW3p;?oWt-!W5XdwkB1`!xX$45le%*3Upx7QNR|STw&8YO0Rp50_Ho__
z^*PvKy6(#x`E7=WX#fxDfO9#2|Jao)Ph0l$rF&-=&B=XrNC#ZcPRJE%`k#Y!g=Axn
z>_hUGi69+tJ-Vtsq^2j!Y`>?nFuj!CSMPof*BM;Tt)ze~T<I|5lFRMu&T_XH;t(B?
zHRCHbubRVMKJ|2lelVfaMRZ8IH7;}K@ANz?QnHmBBu=7)bim_TXNy9R#^~lEv5(~z
zb+-Gvk!NUqPAPi~1>YJ`Ri1cKI9}~~ISbKw<xk;j@{eun>4}Dyu36XqSwcGCTn9c8
z!UP2)0@4QsV<^)9B;X(&@ci2FIQwg^tz#mu!kx;6w40m~(gBad3uC=~8hNa4YQG*Y
zA71qt>VJyXnfO-nOVQ~~v6^}BCjq8c_)`!aR*6$Gb7~I4Gt}qYb~H6DjS(I1bw!Kt
zXPb6|rdckXQ93G&hz|I@?EZSRK7G6gE9=Er(&^)mmkC~A>P|s)u4dfZCOs5>MCyFB
zJgXy}k};ygcSa#h@cqFOi;}NwBud8mjEK(3lcP`G^W$GT-W5vpFYoo}uS4sz@A)b3
z$8#3X9}U}ge%gDur9e91`6ZMWPGgf?eEI`7=X0x@3tIM&4tQM^Y?+~$UpP7+csux@
z@t0o(yoioY(>ER3$JrN^WKME6k^Nbmu0`v!A?Rc`Sj?lLUKv_+&Q9!n0iu&{rB(7#
zHuS~9ps0yDd+&-pq7&2}mu5Enm0%UE`u%Z^Z~-r(BgVn3Z}U1QSk-$?w#|-)FkJ)J
z2fVKf)Q}ZQxKiiv<@RVpvbZue0n!2Y{k@}+fTUVPz>cl3T9kHs1|HF|u^6t|9%|Ma
zE-Pvv7&22RAUf<MCmn}e>h32R(fc0GFgd<k4c7;pt8?aiHG@h{XZ!&|(+e);DFULi
zzFy7!`s(in>Z|rFY8Nj5!6Q2Lmf3;S@5pu9v}>%?r|dWs5S^R%#o9{lN>SCnTG?ka
zRr|VIh1SQsn_n#Q9^=xZ(%K1DX~xq8M29r2KIPNhr7ST{7F^BKt44T4XH3GQxoc6t
z%g|?AfBQ(izXGBo+2JUdIVnUeTTn5VCofI1TZz^u_|%XRv0tdf&(UjpWr_tX1VpDW
z_SSGL;l#7!9wg%=mrR`Sh)(1Ttx43_r;&>y+s*xRC5{S+&b(mh&+>C+4W{C)f3|h0
zmUk=Q`hfRik6jm@U-|h)$smyQ+Xu5j`w>V7JWn4@h+UBUnxwJCX1H1*AT6B*>42|;
zie4)}nk44gsCHaG7IF3~x<ESMdZx?vZFo;eu`5c;QTMs>YvK?ct&QDS#fX{Y!g%$N
zlWy<Um!H6O{{QAu(b^$IMxRY=Df+l?vi^wx>40;&ZhDspaC)$-oF4RgFBxKlM|AqQ
zF62IDe}4&=v=i4E&$6e0=!}TJ6z(TGw6v#u_v_54hsbU@TAvi1s#~SxnbMYRXWH7X
zcQbcGI$$5`GYemzQeLhj5VaqF-#@G#2kC&X%b6(|eJs5yRL*=|M>d|8=GsF#;Ckk|
zL|>=~x0odxUz{dt`ump`(Yg5L)n9LJJ?eLNSz8;(tU{+B!*vFqYu#DL@9kTglW{kz
zo%R_=<oGV61J0G}vC9$fK<?@>#nZgK?{=1e=sX$!x!jZU>cGTPt`6=kCVxDlBX8F9
zF<oz}<=Su8_ya0)s|t_~xbL}gKS*n=V<&>OHy30ZbpJ3yI$$3v*Uo*WU)x?|4t1h6
zZ*$-Gm%;59c-<IysG7;}>GAkKjib$FOI4%=kPf&WfwZOFq42;s;TP#~xlev@+9Nt&
zD_aUjr#v1m6Nx)#JhYnOMRZ&ejjl>1yN$AK75chs3N}oa!u0{?dUP>EaWFku@8cyo
zq2gO}=L--WTatl*;_BqgLV@S>3Q7wf?GYXAz0z~D)btl)RH$sezSM2yg>=BrH;l&r
zN;+o<ICzuE)l9dx=Py4(>y!1|FrkSx%Im3F-MHLr&R!{^GjR7aZYMt$_c}!AM3iUh
zunVLE&eh8jUD#}C>zQ}_x~1(xL4p*d1Md4n9|g{g+91Z;<!RqXaGjJJ57GMI^)vU)
zE}D~;_Tk%FAAa4dhIGKW9`g@;m-vJuwN<Jz@MTzV#zQ*b^{0VO<a&+t$hxl8-)hEZ
zN5hRF9k35uAui-|RIz=guIN;@XMY4EqH`xwZ_2fNATym~;Md<IZ=L=Uw9Z;1Z|1+4
zlXm0o6DN<~Hw;ffbo7R{7#Ma<$AYzjP8ktds~ST(;B~dFW~4b`<&I+1_oZGgFUnb7
zNC)h!rxq7Adp2GsC4Q@wCbW`xx)`mG(|bjV(FM5=*J78f-S5R$7a%&Jvr2xk6{#Ug
z;RS+E<)W|IBRY53eL^=*law0oCr!8R)PCTFbinh1;;?{n(w6_*_3<;xr!H&!S}sEC
z<4@cnqQxZ_&=Z*d*6bAbol->S{j52A>*&3<4Tl>;--F-Gx*$4bC)XUG;x_nA?>e}a
zr>_6SAv$A*1jPbwe#&>5n^WX<zgw0I(fZhENrjttt=<r;Sgd~=f9+K%qywH8@i#bz
z#y)r6P~dX(r#X2-0}ttd=Y<1jQz5rfBGGS-Acng>y^;!u&Un^04F%lZL&u5}q^i2(
zoVyRu`t0Tj9vcg0wi(O&H4^cy!h(S42*s|tNICAml`0vNWAc91f`@d#&Rb$Fmw0I<
z3*_jtPPx}V^3sKLz|Q(92};?^B<q7Qe#T~1k}i~pj`lxJXPO*C#{w$daXUA~JKY6n
zon`LCMqU#v{+aW;v8FBZN=_W2!|4~3`s!qOc4%~x%IaxtKV3)%?7Vq&KF6S>=SHHy
zZJ7{%-YpJD2kbm9W|YC;>2p|Kv$y4XsL}q&eY8H{bC$9Yo&42QC23nF@-~L`RW^Df
zMN3Erd_Mo9zW*DhcuF!QQ~2)nUxXXFkPg_V!^iQC?11d88#D)lzC;}QMG5JEuNQ7A
zG~2?*+!(V)evC{!*AM8=N9&xf{4mSmMayTwpOfxVU2eD(NC!NAN^KwINd?d5%6i_v
zm_#WyWe@3qeI|#_%(zhp^!t+T58No|iRVRhdK>WfIg&Sis$E|ZFH2i2oxX?G=i13=
z`n15<o!oq(!2NnPz5+-G+^_Lw;wv;dhTYdv&CMj}NzS@JI$)o!YxaqFpF2J^5>F}a
zny~oc5FH7pqFGmK+G;J<O<q;UP3q-5v_2-KU)$U%9CG_+sT@Z4K0A~mI(sJn+}>O}
z|JU^HCoS*ORpTy*j?4NQ<FWBmu5pk0sw(EEiE)q)_<1kmp6xV+P+hlg^v4b!dXsCE
zkPf(CrHvHcW;rWQ!f!O@<%<o7cjv-&27eFetsd#^Lu`d{uZ;RVqCGMMnjsx<J?R&&
znz6HHANc!IJ=-!xG%p;{0iXM%j_CNxlH60>TJSuVI4)P_dGa(7qEk<GV%UsP(rA8y
ztcfCl$Dla}t~2;N{9`t5IJ)u$iT2xE3C$<xc1s~0urv5PD;Gou{C*P-(E-2Tw44ps
z2b>Fho>eKL(-QZpm_(6xZS&ZjnIS`CKNm!&dCRn-*2L)pt)W~St?Myo9HIk0Uu!uF
ztxw)U_nj%5h$pwqp3r^Qw!2gc>44w2DwMCkenx@ZLix`_BYgG?r2@#g!21^BoxS{1
zoFPjL+18=06#TbSARTbu!RLk<BRb&oz8Dc5<4+xrE|u*asY)hJ{65L=+Yi|poa;qO
ze2<N}-u*=<;fT)h9QhPP$0bDaO-|vr{WXj9x==I9aAQb^8hB11S;K3l7!j|3mIGz3
zgx9MbmXHoO7x+Cy4n&6{#BRbN^UKZio+>$hZJtgenP}(5hR~^xQf#$l>B1}1R_oK_
zS&$BRUbrmZ@=(v9x|n+I4Sjc>mnZ6e+4EHXZgC)e<DPYUYgkE?40gZ3^DD8I_fAt?
zO}gpx#p+|nPG_hic8-!t?%?v=XBjDd<JY3YluU%^fX~5ehU^R;KMU-)9x*V#43MD7
zv|*NuzZQ<@9IKW{qq*At>g%wR@?ow)9d$&9_0#LqEJWsG4?G*$Z%nxUB0_Y6A}Qx3
zQ-n@vjnG@rG<JnIXTTlL;Qd%>@K<L>c0G>*-z2go@;ze$qyu&apErm{bbi06cyWU2
zdw0lO{q<wq9q|f?&bN9l?)xVWFt5>A<(T&L8}6pV^#SLiekDrFzQB0XBvnR?vC2G@
zfaqL^iV2pERir$B%jv+hB{Lr$(QzL&>WH`*@nC2`S95WmY)k>sv7YC(jvtrP>ozB{
zkSgR1+f763LvlklJO5$8{i+IqKekhcSqO-Zs!H#x`OuM8nv;KxEkusK!y`J4M-NFq
zIa+$q%qcRf=~>0F0;2P<d3!suLxV<y)wHxGGC*rL6|K*=>D=-U{XsPm+%B(uGr#>K
zAUb7-%g-oEk5ViK(U>S0+!4kjI$wt=ed)jG=F&50be{`gzNLWZG>Alde|l8?p7~L7
zsW6!z^X^@=K4+;GOLx!nmcQlr$T=>uBTPVaw$dLmnHL*O+lbN9Mg_R<;1QjQK%3If
zS}y_}iRRctEadAI5S?Rh^jRqL#wWjurx3AnQ;zQ5LF<!m%R<G?+%eVpoqO)w9p(T6
zqT?eJo1{u2rlGBxdBkwSKn0KJbj2TWF3WEblNsOBY0J3wK>^X}H&>Bn9-fN)TEiIo
zw60%fHwCT__<3E<b`Fh%Qm}A(gizq2zBl-8NC&*m2S~(ITxPD@spq$8S$+H9XdI#=
zG;sZ206toGov>|3M(a4Bi|D*$nHJTS8zH-VwU;vSok<@hqyv5q;1tow^zBP>teDQx
z@${|-Y#YgNox#ujhN}&6Q5UV6wQ_AFw!%CP5g;9~GeO8<BTl$HtV&!qw~j0E5FXK?
zC;#U5v9GD+)q^WxduI4p1xN?{`@4Sh@%n5=_35gAd@M8NJ(n3F9dNGhS69q8d6K#h
z^=LC3+L6!hPlD?VI$eK+52*}4kzX+QF6ta4Mwx=>MAh2T(-~&i5&Kh1Y=1ZRGKO@(
z`$H*FrrDn^|Ek&~O-|}%@CE8ZI^bLvGenE7yTpdk*>vx@J#I^<M09j7d|UWqNKF5I
zBf8`{`)S$kM6}LnWNZfaGUOaWPTg(xb@IOu2kC&<A3~~v*z*&?H0=8s!sA0@>6VZV
zcz*3)kPPA5?vY588F=(g^s56eqyu*T(Q>$G&0~C%TP$cLGH8Bh`Zijh%7=x-@lr<K
z3B!_dYUQ1u3J{%HuHMr(z65R-pC{kekg+*xkLdVc@n&pF8tfVWF2&Q7DY(Xq=v;j{
z?c`2rRC=(%^f`h3MCWt@Tpw`XUHJ{3#F{zD)g0m9J?ZCPSq<rc`<2^ybmpSjg-&UK
z-G<YP&!xN&9gBp9w`-zFpHz-q2zDuZc3TS3;pyS!eRM=}zh_hBGbi^6;*EH?KHzmD
z@|Qx2QS-mqqy_VHj%8T|%a9J(XSOCT&xS_B%_8S-oMxtOY$>E8416ASI7#G=h0n!n
z_%&ZyGSdG1Qp7%c4>bGFR{EDzX@}fC7aJ_*g6PC%9OJ|*D;|H-;hZC6G4%t7=+q=1
zo~Qk=e54_vhpwE3tOT{Qx#PQl52FFO(RXaC^0hjvVLOBS^^~)lyQtOumzLG}+A^Hd
zybI)hfq%Cu8uJPkm8zuO^7ZBayeF}y3+aICnR&|WRe4d|aE<)-Jq4qEK1xUjygo+^
zD^o6PJ1tyc+!6kF@o;SaEx7XnTu-x~jNKqp5k=SU*3nEZFRv6tM>eCt%P?$q=Tlwi
z+UnF(1!G7Dygw}e`DaAotMiHEs54!YEn({lkPbK(D~q0}bi!Zbh|8;EYL-EkyK!iJ
zMrU-ieC7(c2S|4vS&21i2#^lAU*WMq33Ia_24cp1dTjE>g~K5oa4t~}pI*wRY_7TU
z%ZEEyuSTdNI^gdY5Ft9?^XHpyqIK3`^x@Q_juJ7;7TX-<kYo!-bY73Vv^=$5`RdpG
zi6&uNo1f~4&V}3-3kSDThq3376G1xQzLOr+>I|}E@M3b;Y}Mw8rtgkL>%-P#dzI_X
zAw{fD9HO%z?M^-HS>{exehEicrFcgd(Q&B_`rPmPVOgrHU|=+?c$yN?VR`nz|F^ER
znQcyyhxT`pFWoU{eI$Okxx~dBK7%=Nh>lZJ3(W&Ywgv2Yr@Dwv`-$tZ4!89Fn~M_B
z0iToH9gWuK$0f_7eOH5vu({$8owne`lKHA&g3P|1mC$f5lP;p8JJW(Y96G8de$hVo
z3x{JZC87iV-b8m4S|6!QwagfXvv}-zuyKeE_}qA1L<js`21-PSXWuE4+Gm*>+xPBB
zv_7fPvyL)xr3RQ2hv-}mYn{-IUb*}5ue{e*z|gWTqBF>&B+~qb?f&%I)nd75;s=z7
z&Yom&8khe8X6$=g-4SSgTp0qjnrBmfVy_o*kPi5I!SV1+(&0tMvsh<iNC&)6VDC=i
zJ5Au9!q&qG>459uvOeeK8moQ<``wC>aI`)Z&n+!%o_u(V&6S1dT+`KZ>H2+~8(WVh
zqSG&TWT|?XrxaTc2cp9rlQXdTSI8c_Zj9VO>!b4e!3=q6s1Y_-7NQdr+wEv9->8l4
zyCtLp?)x=&>w<+F^53vNypRrf9MTY(NJR5UKF6HtFtk4VB(u8L<toUrJ_U%*<ln9}
z!P73Mu|D>Y4%ml$!>4%v_xuRv;1Hds3HtF|&WVYbvk?l{2V75li=1rZBSsmlGXc^8
z_Y3^}0z9H~=6K!4MW2iaY&{By4*2}}-4M7w;9TJEAP^9p$sac5Zz%8hV{_pV9XyAQ
zx}nNh2Fy`FbVQ%)JzJS!X~T}6-C(#r;PGQu+PzBbH*JnN&4>>8dkS%o4!B?LZXy-*
z%bu^@!jx+gZLfFeB08$Lco|<?rL;U7#<`8II0H&Z2mJgea{FFwuMfcjbC!ePI)e`R
z!rAy;TD8N)yR*{P%JZ|`kPg_#e$*@><=)|(vft@E^x6StagYwU?@fP=>i=4^Y@AjT
zYGvMQHZq2E!1cI4P$}<QX&}NJMnoq^(#)NcMTF%jL8go2bF*Q8AY5l~J@f}X{l9o9
zCt*$sqI0o`W&O^%!h@J&jOg6HpElmaRn&z!jEIh2sdo7Jbh0?i>Bpn>v8tz;Q709l
z#+(#H=iZgH0#&uSY|Jr6ba1g}{>WR4Kg1kHMCbI5-T14tc^u~SUq|cn#W$~V`}v_l
z%t=9XxYrvLm$>)8VvaGQ({`IuOPaOoHRdoPIu$SH=XaVyBrvBx0IknUp}(Jle4dbD
zP70#)?oRZ6!{rq-%rQoEw(mEU@Ebopf;o(cjtAe5_hVZAiI~&xkJcw;fQ7qj$aWrc
zQV^YkLb5le7e%x&#~9Js<-y;pxMgq0^xRSSb@H?8jEK$wn%|s}nURHK`a<?{!TR(4
zerSChga-nBX(vsHL|@WmN2VI2AUZq>cZT<tjLI>`7||ItntW2q(yW9zjEK&;f;j<~
zGY)>bllu=v&e`GnebM^7cNNcWG-6-JoD@XINAcy@i%$%PFvl3t8L9iC!FJ%d@dNGQ
zH1Z1-;f#<Dc)#(2)zXPP?MHbF+i&)Na|0tIK5%_N=f_m7T4Kp%@1uUK@6OZQeOmzO
zfcImPZ_OUhamr_$?2Ejw#w)Q94(WjR8>~MU>D(@znZf#~LptDGPh1?LIzyc=V|^$Q
zojCc3#W?aW0@z&r-f*44xt?1Y{@5M-LyOIo0_lKr-5ebXNnR07#OAU@bSQ-8`BoB+
zZ((!sLOS4Fq)!i<l^1suU~^4-!Sw;>QerB%u{Xy#V{?@vI;ue|^qCrX5o|6mNC%v&
zm-SuM0sd?SY%VEC2b}9)c4~h)!@CpMT)UoVeFj^El=eT-(qVHoLptDG``^iJKU9~=
zVsnK<I^bL_H%4RvJ9{XwxpWboe~F|!7E0TE*!71I(gCkOpKf0wW>eh?$L8AbK<ga8
zdf=(BUtuOT7Xi^>jWPXkQzexZn=2gB0q1(TB#~}mlExCRc1$Wj+V+|~qyz4|b#<DY
zO%px}JAQZ(ozo&yiOWG36R^(H?r5E*-Rd~0Q?n|u&ZUUX^PigU(jvaU#5#LHI$-Cz
zLz`j)wm-G8KE{v^*qO%$w^ScK!;AG{gml33E1%rwbk6JEhghGHYiON)jYeVws;Mq=
zO^)VD4F!o5AUeB+Vn-MGIiF#DTp%5=Pe<aH!Q@gOF{}>`(gFMUstR0|WN1&q`fRwN
z^$Cb2mZDXl;lbu2Ksw-D6E%{@+lv~HVsqgk9dIt*#o<G1w;V2EbEzXb2jk9c*{w<(
z#?A{$NC!MGDz8qZj-MAY!ul*<h3gFVQS1ErC)b^L9_v#I>41HP2~>y24Qe&8K3<5<
zg_kcCzd1GHu+I+_5S>NFL%jK^-nXoT4f*HaopUCFbih7zgyyDrFD0wcNAJEH>1uy(
zc17!a8u#H=fOq{m);S!~0Xti3#su&ZS!H3JbrBt6$7!ad-}WBZamWbifX5+sj^4|r
zl1_i@INWeS>$B17e29FTF2RYK-{M1gq)j!V^P*$imEiqn8td!@>42RdN-TSqwHcqm
zIxC<$KX{+g`+7Xb?h}Y09q>5ZrMVbO@`yY3&<hqP_rXft<|}BO=WpsA+8ih~$6j~B
zAsw*KPSHJ!*LkgC*uLvRI^bOC`%J9&XEeyRr_w1!*an6vAsz7l!#^KObQG_`xnt-1
z$Yr!Xb5x^J0+d|5*!iA?=x~{pkA&l&dt%3-C8Ps(HcVUWJw?*jj~$1+hz`-%vlr)v
zc}`*LS$2l&1FmPA<+Gp8i`)ObAFM`nI-2Z^EUvbyW5*93(gBa3O7*~P4V#u=Y%T>z
z2b}AdVacG5qsCLLGZCWG8{Qw2C34jjTTizWTIXLXMCA!qOUJPFq#!yUEI*Nd?n;lw
zu0NKL4%oSXc-bnI1213B9ev~<_n|lrM8~u)jP8>CSR%IXBaU!=!1dgoeDxX^dN&j6
zoCWEC`|frw@|aA$pdQxQ9?@~6?VmiAXy1d)g@bg!xsq;Kh*n&4`i;%Cd<m`(IG0er
zoU8C+SsON2HKMakea(I4a@#j-E<B_I&P7#oyFcmRXkn_tdI4=0BbNfA!}nrPk&@5q
z8s_Xe!1V#wQ#d*6-bGqkg*gO7r|pf<icjgEgP4OybTp^*{1v%&MlnYL(P92wviB|F
zA3Nsk+N1Sh@3vcdoG4+6IRr$9TR-TC&@QPM=HL;XBRexR%>Hj_F-HN>S>)*V65*Bq
zf;qc(Xnm&d$)5hT5_AA_2#5~--k+h-ZjuPh!6P~goUJvkuM{LOM*-0h`LKUCYH3Ul
zb9Qaf`Y?xx+wq065n~Pk(RqICV)+wc4S&qRBRXuwUxocRlDK^6Ui1HSeDhKP(gCll
z*S61YEnNELg*ilsj=@6qt-|_^=a|!d5w0`19_qtFN|!WfqcA50(MdS9^@-%e^a;$d
zM05=ACa{lk<<ejdFQQ|4l~bquYi|SQEZd;<Nv=0^jiH>a!<=eFhrT0XEmte!JLcdK
zorv%Tnh&(^9%GI=qVs#UhkRm+RseG-5uJ-O2UTcPEW$9S-x{s+6&{<IP^*xan3IL*
zWXa!fncxXt#2kA>=YtKsNI5wbJ?7vL9i>O1VUZ2jeqzqX1++dv&Z~MopGt6;LqK#S
zmI9NG5uN*mIpK(orjV;?I^8){%+W=3B70*bY2Vn_Oa2p3jVHK1XM}XX_wQtHNi}>s
z$Tl!%+6t~S=!9_;5(=g4PGU|qqSN?tkg_7E`yl3oBRU41Dn&;9y`Gq3jOd&WOkuaW
z5UYqeyogRj437GPaNr%x*|0?Gob1zZE_rS5E#@>MI+b33)7s1M1(=h9=<vwtbH(u<
zbi*8bM8`OUrZVhZ;11?UAv%X>DlP7E+NEF)5u#&T`(}Ks;QDjS>9;`JFMIl~(H+xk
z&X`kx=mbA(T==FL9F93&hz`??OV1x)<z&oJM|2qf=1mih2+d*+BciimhimQI4t|6=
z)8=TM@9n$M`SPWZV@@@q!)rEAG88b^iaFtkPIJo(hmsowN@qs>Npu4yHH;x0@cpu1
zhtl7>UW*<LZK<Vw-nSVT5uKp81JynkqV2K&qwYTs*BM+7`z<0~cfC1t%t=9XeuXtY
zWK7t|?>uNnn6{j?GDdV<%;il<!x~I5hY`_Xiipn)lj(29oc?oYeNHs^w4C{|cNcR~
z5FNSkh5`Q%l=_%sjOg$jRS^koIMabSjEGKfB*W5U)9M|}={G~`qsn#kLx$6S7UrZN
zI`*Ed?|#MJ3&9*?L`RM9h>v#hw>`{ZM0A>>aH=2Y8>uj--xRG6i|*HF?~YQ2VNMF7
zBc@^Zu3^h30&|QJo#LCJgU`#;k}!u6(Yat8o>288BoA}?P0;#`$4ftPsgKUaoD@Wd
z@ph8+XVQY3m}89SlsrC_<apy!5auu<I!<kp3%eDUuVGHVF<Kv&n<XXAi^-qVx`^3G
z42Ex}Ksw;(8#gn0rwwK@-(ij=qH~}x(6-=rQxoR!B0BeixDu(((LBPOWh1yg;9P3w
z#dVKbZSP@DHKMa9B>qB}Pi`J_@Q9A~m)kSWZazbpqmJmjAFHme-|R5Q97;sT>^#YF
zA*ty9j-URsXr24i2(3-l>%-W3vJjoKB{eB43_MJjV~^-K&^BoLmii514i3?In0?F9
zw?+F2=4=?E^_gSBYe(jqD_{-*(HZhj>HaIcFn~GXh|d1a<kvZ;Qx0Q}E~0agq>Iv?
z&-4`LFd{mM#;?xh>sF3o&d3?G&KLAQ2Ymi;uoL^9O97+<-uHHsx#=hgz7xkBdqgKE
zll#ZUZBqfv;YD;BEn3`{t`j}OoM{8NKHyxb<ng!7Bv+&{rvTC68sPWU>iRT+IrfMS
z+vL?RQDzLqn8S<cXdM-&|9ye}zs}S8XnpiT{}2=%_<msPDL`~a&1F=c#){`-jy<BY
zBNhKqnNRW?=I|mqHpIV!ROEcNF=tv2t<OWDyl0_b`u>}%0MYqnRzo;$`}IG^9?>bh
zJaxoc{hkIk7cZj2JAS$NWX9$(%$e3j>k~qmdtyyGq5^XY5S?+0Y$dj#jTe|>kLb92
zKJ$xI{Sk>dyok=cD8ZH`BvS<Y-rw|Tv_1^_&AkkEW;WRO{t6JC@ot5&t6fU!mO84A
z&iiT~?Gc??&r=au>yOq$MBdJ^zphs1MRcOK{4e*h#LQyf`<vE5>tla{qTbL}?;qwA
zAUdyab~W53{pE-`_K1$f3RhY`TZ%pQy+2+=M?-Wbmv}txIp$1jqxDhxeEQ?vo@?ru
zQ-J6k6*>RT?wCou(3ZcsyM~IDJ)-mYiiHAW@puU4@FF@PD>65@82VH(XIcxbkFeP<
zzvZl}6McN!{(l-jZ4@9npR2BZreieF#2kA>$L`y)f<M+{X_&){=rp;o1W-H@x-B(&
zxhB??#B2H#TA$Ft-I_z*E$Wz4faq*!_SBvUee(!&>=B*9c71WhtB2Z^Ppd53G25#1
zB043_)NGE-)Ur3OnyXkTUvHb%MC()N&#)xe=9Joc@nqk_A8M})5FPj6iTg=;F$VR5
z*R)iLcG~R`ohUVy^f`UrQ`lU*hz=F8%IY^B8VRiPv<6zA;pGFIHn-z53s%fiNtDW%
z3lJUfxvBPu4*1+uUPMQ~Y)UqF=u<lO9HD7-v_74Wck}C|SVFP=DnN9Otc^-Au9L@O
zjy<B|M|{QOJb5e==I|mq?&g1Y|Lu3BV9vA}TA!NBnJ!#wBxf+E0MYrrnfAtmd{GEH
zp6wBx@nuaCBN-JHY(2b)j*&XUd8Vshsj>A;tD^M@+#;HO+bI`@t)~Fd!EHv|r;S~;
zz}91r=qQv*c03s3tH;*Ei|7nSzTEv`>@$No(<*3vRxYr9zIjx77IO*^o%XC4!(f3X
z*8ln-I*xZM+-1VNim~<ZB02$%k0Wu6O7+<H(WaHr`Y7AIu<+n;)?-$)8`;sk*j9k(
z*fP^ZNHNt<VsqIeI>ZtpBad$j=3t$95gh~mlZkc%l<r)KiK?`2m+GdK(E6m2SyZGf
zK2KasEv2FC^Ib21bimKmQ<dEQNj0+PW1U?f9q{w0IQtjnbh5F(vCcR|hij41lQT?G
z0CScV(fX*5UW#^37x|1irHD=w%R92S&z+8AjtinA!E5+vFY8(|=HL*W!osR(3IVJC
zIxn9@>x1iV)n9rPYKa{`rH~GI{20_`o((M-{O@x=FGvSGe#{T&IQ%;B`8M|Xh7_Xn
zKKZe?d&c>8%-K*t>*MVv|L?w{!8GPnBRYCl7vIy|u}a4rFGT0P^vy;NHr6oAkwSF-
z`lNn+Eqe1f=4{BL^$GK1FrA@!{NHoTsu7(=^TlbuJEFI+^>`sVpP!!ety&9R#T+R_
zr>};N_Ovhg4b0h)L+i8uF{$pXw0$4uR3kd-Eiq5HBI*A7T+|EEu^;C5G0iyq2wRU7
zqN6OgBlzY`0zKwz$fEU0;;hu#p3J?8In{`cuSTHho1<NWnB#@$*y<kJCQt<gV~!M}
z<FKn+x^!EV4|6tT(E8YO3iFB|{o;vzPFs!Wq+VbhIGL=xgMCixh3JIwzb;dMdNlk|
z@QcSyOfybWh|c+?-Ng*MQCI0VO1&p91(|P1!}S4QcgziXKe{|VA(HmUl}+^cb5;VR
z!vy^968QTUyO0j}`UQTT0J|R0>DK#v%r9WBwCqa{Cv*3~Nj&6wz&;$-I}eWB$(p$Q
zBZ^66IjdJ4(J69BHFV77e8SmkHg-(J?;Ith1J31aCMd3|Vd#lD-6!Do9d!Jb`bBw2
zts*fe4$%oz_B@{^pU96nx`>YZ?>3|5={_dRp+t1ZI>hYb(js@mn(y6v*q(Hz`#4-5
zE8uv3TqLJWWixv5{NYh%eS^cHx{&87c>Hv|6?^p!H~5U4$M&C$)XyJ`kPf(Cbhp(>
zG>1KME92dC6f7t$`yr1X@b}t;mYI8nmIsdfX$lu}>G1F9hIGL7+z1ow*S}me!?l~Z
z@i}RDHxAMP`y_HHc`-~6P-+zkZl<Ouy)uS$z~_O~-!VTvr>yJ5(qyDOTs5yO1?hn6
zDH~d=8j#j(Fpcuh+I3>^+eJJM+rJ+AS!UNfoUVoQcv)OqLV$F@x!yE2<NWoX79V=|
zw4K@QRYVq~1MZiqvWu=XsdPegWBuJKYsJ5ohz>v7dv-}x2l^on(c}Y1KB#dZI%037
z%wF)3-_lAC$!fG^W*C7yPr<p$b!-kRi7Q+#*e2-lxmq5{LUf)KY;Ddi4+`o@d$e?i
z6E-Xnog>aO%k#_6;!`Fj`}P<+l{gTc3kTkB{L)GB&`kTl$o29|*oYL|bqwso74k!6
zQHhVWUUemfaySx~h3J?MiQv}u9|z?>x$7#Mb#KBF(xCyat2}%6-WCltxm?H7R#xU7
zZgYWjz_}WpFx+Xl^2{jXTTPRD3V%Be(gDw}V7}mTp;<9e0SOLAx!0a?l#mX%o`26Y
ztpk#!WG=t42==$&80waU+b?iEuB|m4UNY;O>wisSGVC}CN+BI^J+fC6nH|e{f0KXn
za7kDA5b1*GbQ!CDEq`?_uJFc43r#<rCl1lc%8Kc_>_bN_HE0$1SEugxvIJZoa4wEA
zlikKmWgA;2nchRb^2DWxPEy2+(Soff4w-^=|J0r=&blBv30+p!4^J@mmj5&?lD(vM
z5r^o^SIJIITv=Sw7?eKoJeMV9SsbnpcprX;M%YP5>(uW9OkWLGSDxZf*W*=m)qq2K
z{)5W7vwyE<_gKKL2i&jAZnhZ`-?vGULIl1h32rTwBF;sew(s46w_h79ZTVwvezhBQ
zJ@IcF(?|pJPmErF6*E@+&kc4x;9R=rKjVw{W>hDOC6mM|u4TAD&ILLR_yniueYt^g
zLzxRZcTx}I5S<s4;q-~yyB!+*p(knoC08wr!5u%~dOYt|*Txpzq`kgy=8sS#e@ZE$
zlT(yAF7h}pQ2V|SUe!DBkqe@;Xr*=Y``<<1gdU}bUUA;uI7G*wX#Q^H$Av9ViL>nY
z&iY3#i=y?hpM2nzcJM%!nO$k4mHTP0QbgzG%M=CUlCOlLuGgEaxIaa?AUb4`bo;Mq
z?>eO~6n$QL_)8Xt=-5nLyoO^7KlPhU?Qlmko_<*btxt^41tkx!7xl}5nnTuHd?cla
zj>$K3-PD8P0u~o{?zTT9H+DgE>|QOd{7id8FHrYFHZQt75{KxFY$lVu2$_8_^KJ2~
z$3w%0Wnr{FH@;KlKQx!CYp`kwG1rnvDn)b_eedT7K1u4RZ1s75Zu(D<3!)>!U(c#A
z^qyWf<GnWJS<7=cL?^aBJN9#itc1IE+hc-@P46-etq+eAFKsuW)Ldj;Et=8fpHL~H
zQ)v-YRps2P`+>orTp!<|?Skmo@maVi=^0(__KzAYe@UN#Lv*q&n>?D!izg`>ZoTC(
z*KS!BLhHk4zUlm;UOz&zN0r^5Pg<-L(Gkg1By<S{3M+l2Kk$D~c4T!ybi@jKGy?0}
zj(@b>SSeF(-o_z1T!*hexfd|UQ9~)?-&H){y)1~<$A!T(O)03TN24|<SNBtwQ7NKB
ze#r!9woJlp|I5NBC&)n61<}!^v!)UDPB;JhxcoAa`^|GWL`Nh_&er<iiO2K&twm#z
zD|ySu;QD~ishEo;n@cKJd->Ni_^qM&a619g0e??iyPwUi@1Umy#f_At?+;#Y6hJ!Q
zdLGA})K2#a>V0JKo27E(+>#ffW3NqjC;#n7{pkx=zOhaP2B||j;QbG)*?zl_o$_85
z1NnjY81V~4kPi4h?w-}DDyv_@987KPPW*%1*Qbxd?H9P7BbHA%e(>%&{VBWOeT2U`
zv;fgbSGN|XDLL@^qJ%$Jqv15UJ)}blyni>8YFY^xv@r-Xw~AO4kEm6EbildPHSwP#
z{CHn!rg8`2`rSNt1<?B7m0y2Ml{=cs5@SvsIb%RhfONpQ9;{G5e)}2!ytVC;x_j|6
z`4mV8oU88zXJl6wsTO&pG=BfVRH8AW6XBRM87=5mN^y&*W}vI>3L~OZRI)k$iBL}Y
zl6&Wvczai0KR;Y&@H}O*?}(qPKar<?uw#D5_JUafqywH85hhpX=w2C1vg`<cyZ>~t
zAso^HJHH-0uk>!kJo)|E8*_S(Dmc|49SY!hzBIu;FZnKe;mXa5Gfu(_nNpArxSk_b
z8}-`fFBEUSP^|1Y>S?mU2iF;N$lemiHXhe~7{}_?uJxlcyc*F_eja7XZ=-g0K|VQ5
z-Zpj53(^743zl0myT4R2-?lsvPwz4*EYgK^z`4x%YWD6NI=)v@#Jw&d&Uc>@(gBYj
zX3h*}&ANLe0{qeO!CmEa%e-)%!MS2gzwVn<s7+?9-{q${k=4=+>458r-m2X^@M@~9
zV$55=n?zZ@0MY?pPe1NyrRPzp$^Xol`MiC@`9&O}6L;i0NBAk}C#?S#h7Zfvtaw2>
zRKR&L?=L_e@h-BSVoud0{Nz7BSO@Gwzs*w8T5+c76JAGW756pC7;-(Jv(&frT(+0_
z?bOv{`X=j~Z>1m|dSI@ObbRA-(8uZ4m~0KR46nDAkPdh}Gv%br@Lm^S`cWId&#MsV
z!-438PrvND8GcA+HaGzn&#oCi!UK0agMCs`EjXv&y#GVgyy5h=TI>`7(gEl461jS_
zq40jR!K*t*Ng3`<;Srq-k|_R^YbVd=WN-hx+17eh0nxeN{cDM=z^9Qfsq4>%OV*X$
zBXE7d*DtyJ%`iv2om39~5`WFQ!jEo92kcXM^7<!bw=Y&l#BM(Oc{m~`4$=YlYjU;o
zQEMnmmtY)ku$^P$As0voTu*bl?@k7Xs80VTuOg59;j1`Ar>DVwYB*eu?}73|5~i&X
z+2zA<ox$~N(P}c?<qc+QJ^5a`;c@zdQb-5vlh5*5@ruobrr{>4v4!pF%{WL0T+fn;
z{AkSk?lVLkJDmlu7#`>%Ixh~JeX)@dr;?wr@~a)Ao}@%{oV@A=SBY9}GDX%t28*}(
zbaSJ1=1UAzFptYWBe}H`b*$GaCl1m9Uw2A%B;@g<8y5BxQv9_)uhM%#I$&o85}W?b
zrBFM&=|b{Z@kBN$NC#Zc2fE9z#94AT$)!K5(4GCr$N}kq=R5W0!hC1425Baf)XpWt
zx~OF?xX$2lcy2U!qWx1J`CE~Q6O|ElM%|DOIM*c{Re1Z8)rtAgLq!(40c+Ke4%nGg
z_tVOdsg_OFM9g3Z^|cr;NarB%I=HT)d_qRY<JE@@9&KVTCRPHZ1NNz-{PW7~i>c};
zS&*A{|F!BYL}yFv!JVa5(^9+i9M$ruK2<!V1K!uMPkiC;x11H`)hkdn^UTH>Lpoq*
z?n{n|;tJtzGDn1N8pzYgFd{m5ft{Tpoo&Y~lJpjTLLzVfA-LlZe4ip&eK94JZ*o?d
zLi+yUTTjn7LptF9w>XQ`Jc(N8TBE*dJGbhcIT{D)fPK8z6)nP_ZQ2c*X1R1m>8R);
zI+Pt=`Z`7vlf6&*-)cWx@}Putz<qaT7`sL9MON5!c_2l@e?W1X6RtCO-LS^-8yOQ`
z>ofS`Qf0;BUROgp;CfW}w^uBvJx%LNLkF|mX`SLA9q_urw%71J{7Xi}nVR|^wd()Q
zdqFxZ!1?~eq#}3m@B?vnvZB)`6hh8*LptEThtmigrioz5Np3U{t2kP&0XrAyxKR>t
zZZ8ks8X2U!%=D7*P8V`L;C|ItMTI4-#n2w{XNn%L(QD&?binsJKTN48-e_n@GJO%h
z*kwLL1M7fui9P>!-+o&9)j^wiCvL@q!Xq4T$04}y8-h-DgT*`=>Xo5I=j_DJH$yt$
zdh)HbN<PYlzE~I(HBo2pT?t2YPR(eL=0DKmZx6{V*(~h-qK@b+Cp2<gWqzZe<Bd1?
zLh+oD2+@hsqO9Q$;}c~L7Ix}9-2JYZ9j-Ijhp2UhheK2JMPh(w^0v42LO7yR`GjVt
z>VzRb?L>$6kVe9;I-+BvE)dQ6O2LXQ(r{U>;1D?xqyt{(%|lM)x*GQ$#g~elPvg!f
z?q-AQ13D%y4i%T~jqSZ%l)pDZe^wv`(gBa>!IK%fHw2DfJ3geymwL_99}nq(`$ePl
zV1#LE>1T>mgI2-sqLT`UPJheO@dwXY3QzA({kG&QySK{<*9TmWa$`aJEnU-~<`_z;
zyw;Eq0;2Ph_210ticr&-IaXZ}-0V?2qT@XoYj}w0K6OB0{mX3Y?kELB=X73TM@0pr
z52>W$>u02oG<R9x`p^QeJN09m^8qSrkNwu`2mc>u_Z`pW_y2)k1FuMwP3mQpRYbC9
zcEc`;yh1`&k`&1%vZ4_3GD24N$Vg<5h>Q|1D<i8So8Ra6$Myc*Zs+^Q@7zxR_0RqG
zJdbm(b6u|2Ip;deQx-@ESr0hRf8X=M%<fc?q-}>Og&lMKM-pT`V1F$x<{$lFyZN5V
zmcXEJ&1#E?=$IT2^%}-kC<!=JQeTR)Fd-m1SDLwmd=lxVGBOK)FpANs;}IR@grLZl
zPP2&uftBQynA;j8dbs`q^I7hDRvH;fy+*ev{~g~%Z%;&YW{CML$1Te`_fz+dO*=C+
z5D=Y}BPJauGNx8$nrZNOQy*bGqSNB~S@ep)v&QP+u$b~Vyea7jT0Z8FIy}Y%Dc@S1
zF_o3_!I=>u9q{j_kV(}K1JBqchF++7Ey=2{dqFzj{M=(taggPtrueqWc-2Re0;>k3
z1NM95G^gaiLbQ2#Qsuv<;H_31qT^knBYlmMIf1)J)NwE>lfL;dTF!2^!p!4r`4(bI
z_jMkMKbQ+bbTWn+k`@PZO<hF#&Ch(XEzm%8tfyjGW4`<3-ws(#i9G#@3y0`<zY{fk
z^7{4SK*-oRH;v10o9W>40q>_%lP`~F(>9WQyc9+$(!9!*59xsYo>(XTci5X(LBh)0
zg(<7k#tG5^=lSxaB@4Sp*Q@SU^)^4&QYHjJI^cM&9ZqFyY5pxJYBecGGJjpK1L=V6
zs<};SaOL<pQe!4j^1kGiA04Cv{@wkElRZ;9MMBS8%BD+_k2#PG(gE*Z!K;DsP9kr_
zA`MltU56wdbkV}~JJ_zF7TI@vZk@}0OBqRL^RAXgAUc&F`-h2mp>@WxYc?#cYic@>
z4i9jD_kMA;pX=^l^&0#`tEkIWdVG-ifbDv5%~qe8F>cTHiej8mgkZunWIdoWoSOSq
zb?3*O+hjoz(|?MLG7+6t@+*pO=ib~M9PxAJYHXjdMsyyW))c;dal^&2-#|_Bqy1Sv
zMCVudA;y)@1d>1xr^NX0>ldaEp^YE$4*lqIO265WFJ{KL>oG=|h|bx$*9AL#HIKzD
zJ^7ye`<7{q=&V(>7e00oh||&i+hLU^S;U9vh!B^O?|3LXM{Z9StrTr4Ow*v{Q%=K?
ze^ZKwEQb8UAMaahdYOohpka#Mo2}o!+rP|NkI7rVvqp4yCvvtLsn0Uha`xg$<wd=G
zhz_NP*^iqsGl7PVa<5$K9WAF1qUFQZD&)|#H@$4)wd{Rvh4wp{h)&=~_Onu6tVgTN
zug{b|8t$}4bRHDGFj>FqdClUuHDM#jT8IzQ0iVa1ePdrl+>qG+_i`4m)Hg#O9Haxz
zKh-Br<ofC`^F7F?om%+%fV`O+EoUFiDV?>hGh4+03I|6j>K20#o&LmazFncXzGtT1
zrd}zsA2bjh)_`tNjs28MIM(q}V}JQL9HR5|esM@k;+>=NeYK;v>R$eBrh>}{ye~gr
zt163F3Og*9YjMElJD#!}(gB}09@a(HP+vOpIUzvQ^;aXyQ7=dbtmpWnx$+*JPV2DM
zJbbu)YmpPA1J=W0^!W?3Vd~STe{Q;26@KNFgml1hxT74itw?(@KdQ+2`ywl2-`WAR
zoag_QhWwrO(llF^4bC2=-<*bYz~`Shfn|E8k9tSzKR>>C&6nn3Iiv&bUnW0NFSL{V
zVMY&ky!rSoH<f%y2h1lq>A0rsl$2u8Wta0ic)vs^L`Utbt)J|^Ncwdty9F}#L**in
z4jb?s6_jR6Z%K3gmuG|U^2I%56tMY#zdI;=|CoO9<(%sen~|Q5qzAkakoADi^V)CM
z{3qzenrL{{ovmj6-p+({z?`@8gM3`<q%yJdF03IP@cq21vbNW?vOw~*Y}S1b4lb0!
zI$%BHXZIPn+`Pk{;#Wmb@VR8l2U!p3XmN$DPPUdg2n2HMeM~q)n#RFhU!ZfdXRk$9
z&_yY4ccBHLpS*iAAsz7kwe2Xe6dRjV`^li~Zj`xCLlC3`*7KxaVqy7(#AYlH%i`=+
zEp-h<hk?dhqDoR*%5S~rW$4?La2%w=30xO>-*acx4e+yPY^CE_-?b$*Lpor)YJPQ5
zr##zFbKnW@;XW^x4b*&a$Jz$s%`y&1v3~1$(lX$InvXATDn~K%aEJwGk<xZPr7~<j
zR6srlIO7dYSh;AqE?K_(UdJm&2bm9e-}#Yy;(+~#itK%-?KD4PYUKbW+;|4ZA$X2!
zIiv&jmv!Nzp{{$~(;`j8FN2<GBsW9{JP%e9(P6)C;A9h^czdFXS>ymi=an@IxO~8N
z<@#Sxr|+Fg!kltMXWg=4wc+^j2<&`XH$>-CGcDc6+cy85b1RAHi0dg^+Lvh$V(nTZ
zN6Tm8f`09LcUKNw?{AmY++TE-LptDicIKz1RWubmfaT)_>45zuSf*JzJIYWmnzs2Q
z=iNx0BBTS>!_<DmmOYY9T0c(c_aKWf6Asb=>rta~X4Rzf6~LV4{b)I>Jx)3p6vmi|
z<r9SH&}7&2&Wac2V2%c&6Sm-0?2ySfgE=@v=WkEm=(c#f+KpGK4yu3m%{1>r%SV(A
z|9*F3;vnV(Av#Z^#K!e#WNEN=X&^e;eS5XLe_AS4*p5=gCfswuAv$wh4Lf^Iu-<bH
z`{nY^uFJT2FIqk-UZ3opVlyaDD}0dJtIIAIgy;l)eQf;G%sLOtSp(5YDQm8pJ`pX3
zIXFaT!tcQFL!5Cc<}~j?%cnu$PjE5y>>}m_Av(X_ee6{{=b?)^8i-ESQo7#BatY5O
z@`L-c<vUhzh|VbG@$i-0g$vj`-%N&<57X0%T1Me#DN@uN%;Hzo&IchngZGjSO+M2L
z!5j@l=UH7*M0I-%E#}}5oxD#et?Y!ux|q|vyS4lO{sSJ{{?C8GdA>)wZ+pW}n_q95
zZl1OAwMr18Q|zwz%q&??3A=x3Ksw<4>)Qv8j8etO%Nn!?)<wnsP|!g-V7p?4<>wxn
z-b}*g!>%2)d>S(&?i{Wceum{7f#|qv2B<T<;J$&4XB|XmPJa?db~jlF%b5<+0dwX&
zA@{S&f;j|p2Dahy0Ue*4_aCL6DwMz+BBDb#bour1C%fcW&eo6)*zZaAxi8f2icn$w
z&WGp_=Y-pf1*nuUXL<`RAFv)b7B$67a+hf_Clk^6xe;)1p!Vi_%&|svPCiK0`p4GO
zg7p_4qyzT5Yk0y4-Ep25n6tDAmk;O^e0k3Lz47UF%qd57^7D=LD{Sm0F~<wh@q6(2
zy!PrrXY9FG1JVKey?&M6p#O9eE7o5)M5ia)O_KYso+j3=<_)x*OG31Q*>8o0Von62
zQ)nT{7R>2liaADz4r2k?yi5VBvfy0Q<;WM~fp|y<%-Q3L2UE@{H*K1%a%VrWu!Xb^
zmk;P1Qk}<Xay?BZ=zb5oXIU#lM0CtDo9Fhrkgj0)5Fj1!x?p=@5?GOMrj}xRqEz?n
zIb}Xb2W*#tg*ExK?@i~|1H{~#%^M}tYjF91@6}gR6R&<qs1uU<?31K`KRsCv>45bd
z^QwASF0yCiluK0bmE}ftH$*4%cd?e1I@N#Q6_P}Beh$>8yqRWpz}mI83YQPquBW-Z
zJzTmL6xcb*<&X~8?=i$+gU2;_?$~!LydWL09`M{|MMwv%XDpu5xJ%$<09FqU(gEw?
zGi&-<Z*6Xk<<tBRE@!ZwYQyyIod7)-teyx+2dw8Gm7V>pRsB5H?>dMMnS@lF{h&=V
z)-F0o2W%I8(}%)K9j@##G}^SoNp-gdR^ajhuT$`R>`X`p%m+Ll+Zxfiwm#&Pqm`KS
z$kx1!)#!yWAEX23(_86sGxKTQ<7|TWhx5wE{FavC@&TQw{-2-g=MxHd4y^2}`=TXR
zj_A~E+4HM6<2bST*$dJEbFN6sQ@Bm(5$N{IUQg}jpYMv04%ja6{BRtiGkcpxc<iyw
zCG33cuD@_OgY9}@u;t^$e`FMMA`qSJ=1MtbAO9N6(Lr>|M#2x$?vtg!96ChD(qe4s
zO0csg=5+l*%SY$*^*h$Z#yaVdg5F1$C;mntI+l%D+`Zm1Hv%0l_y+DhQlSIsfam4T
zomYCE$;n(G;Fha9`&=Z90O=eB-Y{sE^o6#2cAe)rJhV@qt{`R&(xC&K7K&Ogxk*Yz
z{yjT_bgz#Vi$L}lxL(4Py`R0webzx)Avs5Qqka+(>44*zKX|SG`vK|b45x4w1LCVh
z5@fqT2Rx^pi0CYSjHXlB*GGCIW7fVR#&HX_zy41>CJuYQ&VD?%-0_n`diakG9<m;A
z{45+Gopd?)Yvpw!{p;WPTooda4*2_f{eh2J4Kv<PAI_xq7p~lAf_1?A;DXM^`@*p+
z`i5%vsBt`2FUTP40rOEyE-E#f&c-WqI<d?7KGLfFjdr~!7Fc``G<|X>Tt@WjXuilh
zFGT0Z>`8^}CVK_8*2=+;$rDP7kPf)Mh2Ssp<LL!%n``r@BmL$%yCoqVFlVh_eb+)`
zZV336y|Y?vabd(kI$+M)*GzAPmUusQGZGtZ4=xL7UP8;+^&H<NDIwvhZ&yv(m5$Qe
z1tB`}R^PbUtO`hv$UkQUz1pqPKy<c*J`UkB4<|kNSG%!yyx$y$=%^<ccsJ^{4?CT@
zr(9;o=Gwf7mXF!~igy&%_ui?EWxuLU7taksbbRs_^D?-8{~R~0;@ow=c}xS*NoLuN
z?LW|)pO^EFYcXN14~OVH`{(~~h~-sFW%t{@-BD>`^8#Ex;COyZVf<xpyv_AC=l+q4
zAG2s;Asui$Q+o1etM-aINt~>0RbdRIFoJZzdM?pvolc(5Z|0Vy4j;^Yy~+pafc5;^
zkcxSK!<yn(&m-eQF_-R6&!gqj@v7+hZLI}Qdg|DKqcu_q<&X|o4|uMT8=}MMS4*{+
zwH`u#UZ|&peVkSj(IJHu&+k=^@-{M1=PelYR9u^b%LjZ8kM&Ko?pV_?EOPWHDZH4(
zT?^@e`Halj2!67V;RtF}k!H^L`qT^237{$Wl(n*|!tYAB<ZzRRD?&QpdO!B-HFNt5
zX2M-wYWgLZ{QSy-=mgT1a2zS^|LSxxgSXIv9>4SpE@v<wFT*3x&tD!k7b~Dok(V@I
z%ZGHp{)*YJWA{t+_bt|+ciu7(RCwJW9k3qU{I`&pnt}R~-HTKFJ=ba_Asw)uoEi&L
zgW_Z3BRiEPX=f6v$RHiCzjp2L6u}SJn#4Wqf7!bzm=4Us<xCGehxf62hG;HxOGMfz
zZ^iO0ck)5j1GWo1$72by9x&(a58Mab9~I1d?pJp(R=b~@59xsW+Ni|i6g*Gx>b(u-
zH<{{`_m72iz`u9Cs|_W%9eeX>P}Sk#I}QdR5y*VN^=!<4_Ah1K$>r!X9{EPMaG#A1
z(gB~tm0ZM6<UFhp6qw!jyFxKG4-e^p{bhFg{_BlrdvcPqGklC$HcF=<^8uYFbOz<~
z5{*fTU#|~$D4Z{V?Jw{?7;#9QV#nU}P$pm3P&8B0MK8#D!0TeLeVmc2OmcvV%V+fq
z{cfQVqyyH|b<fuIYuj#<i|Ki0C%%>Ae27jrewl1ZkN&XuN!2)uNcGLN8Mx~dye`hZ
zYF;IaU)k7hOE76r8x<{wbijP3kA3xAT_NiCmGmei<XO-~KsvO*yy30<IIZW)7XtRX
zLoK8OjvwjYhu3erTz};C;ntZPx_$S85S@4LrDuCq-qmhCTW4&!D9WgV=*Yc%`TnMF
z+T5OArm7i}tn)084%lB2OFwi;w;30D!!uM0&wXDTn1<_j@bBf9QYZaLA9)(&26%k3
zm@1rL9WdwKTcNyam(L}9u_PQO6M4f+gscZ_*Lq5CoQa5Z&E3f08<ll<bpoUV?hBAU
zbGoP3_Tu}iJJs7ia-A34ARVw>|AM@TE?@eE%gE(Q=dS<ISA=xHb`?_mywEruCmxy|
zdpKt#=@S{EGuBvKO;a%~K{#i5Q$e}tU+olJzk~IBO`G|W^lel1U8qO77`ecGFGQy!
z$We_!y`S>4%b4-uuKF59M5m(E>GoEJd|-D^ubH%Is~Z`l1I|B<de=CMD!9g*T<yxD
z2Zs~~e!}Gg&d)r!V=`IwQBo(J4{YyPF-K)WI^eqZS07Ds7Vc^4JZFD(ws$9`CLhxI
zKm8@sWUa%RH8EX&dvp)=%O)pChaH$#t>jb;yswYqrg@z`1DkI*!R8Fs6Q&RzskGu>
z(ZeF+*c#&5UJF?d=m<m(+~JvI*JDUqIy3X0mgoiPZ~*O!t(y+fbT7H9*t_!X?v|h`
z9&-GE^?>{ONs#q`&h4!?@dwRZ4%Z+1YVh%8N+}W1ku0#%=uC5XI9>hy6;m-=8v)S)
z_le^Xol_61M-G|1ebJ<PB!~X;`_H6Fxa$kd2izx4M0CJ?*#ty~oZIRh`M;#<1^vPw
zfvghoctj`Qi9|?L$33=w&U%f27gigj3AB8`{oO=F2i)IHKy>QePNrVEV!F?k(}i<z
zZf^n}(XqNxr+>mc8Bb$L{`|-(CKJ*)T0VYyjTV>fw9jetQ<_^!$m5BKPRzB^gC}aP
z6&*iwMY!tXEhz$`1MWM<BRVhef}G0+KdH#O_0Io$d{u@thL(@Dw(KrLO_82M3)lV&
zF(J>1kPi5FCFPnX{oZPxL*m+R*x2iHFM2^b;PpQ1TkZ8HysbAabZTyI$=)-Hh|cRJ
zo=A1K(|Bxs6d9xgKG%WkPMb&Jat581K>bS$6baX`^&1h04!9r92+{#_2KS?}AUfcF
zv;h)aK43k0$1?=)w3oXLnw<P#_;1)Q7SaK82KSW^ARVxt|Fdoo(E<0_kw(z+VRbHH
zy3k%UhpqD@B0AtYa{{6h`aAC2?FbrktR6g~6KH>WPsy5eIJO>}G>n$d#4t5?^rbW{
z%poE=*Swg$zA6q9F^7QYkeg`JQPi;R{+AD;^DNw<%`}U`5}U_JKj88KuZt<gcg?Mr
z18A`IB$<#7cwLw^^?zp2v-ic?WsT@$4!#zwDze$c96m(nnXk3BfY9s*Y@Ocp5L`ZB
zyG9I|JzWF8u3`0LB05@cN5td5_Wig2)Ed#rxrqyWcx7q;tA`KK>1*1U<zM*`x9iU}
z&Y9y7HT@keALH}gtWoh}>ezib6Vb{2V$W&6i+_$?U)G2Y*}<{aFEZvn|K)?|fcw#=
zzoF$Ly*jmB^0^`t+t-$f=={1?zS5YN5R0|T8qrbO*Y&+nm)-@dhY!&K_hnBHqUG~d
z>w@<AeNhcqyD|}-GG5c{9Db$yQId<qgH3eo)`*Vm!nGK2SMS_*;vd}JlPgkuh>oAq
z`5HINWd4VDU)sEAAW}^apygBI9XA<JdtC~f$1)KeyfWh>leV9!m}8CTe2VqI<j!5g
zh&g<Sj?%g`-y|`hrgG`zuP^)-@2C6W@&VtEZ5D1D_Li<B-np%@MB;oyy9DWg^E|lT
zI3Lkz(rY}uIcviFg<1L8$$`5&PLK|GUk>hV>iH;0bAz2Ldb@;mXiyT;0rTlQX5;zt
zvlBP-*Pz=Gu|ZpkkPi5J<vR;;yZsw;pSLQu)h6qD_wqqH;O_-gfnwb;G+DWt%F|8L
zq1!{KPQCSF(b>5Cnivv}f#&t;8CVDW`!sOZ)Mm2fSG95<Mbg1f7D714c7f*_2}@D1
zT;Jc{vAAs}VzjLp9RcZp?~PlodK7B0?CZ!bH2t!-;m-jAqyzT5!;7D<((ada+fpd8
z=e1UZTSGcvJx2vez5?$WOR@P7b{z5p?^oZnJ(C!<nQ*l~Cb51%@aQW^$aw?&p3A)d
z{ou2V0qtesmrF#s#GSk#9Y&xY!)@gp^VT=Nu=$w;>43i%jO+v~NeJ%GxAveHWt;mF
zUJmJizgND>+)zH5D;5^gUpN$lPv(KWUx59!UF)N8`h)Dl7i4<|Iw-Z6Ve0|spO7Uk
z`S{qQ>y#<En*;YmF2d#vUhiIHj`NK>_;L#$QN~ABd*8x3;QRR&uduuFg=cvC)Ym-P
ze}7WOL*AEZfPU|sR*m{_dMF{0i?;Ac_-2VBqyx4~Q}o6;Co27dL&k&M7cOS8z&hY{
zs{EC|Cdgx~Hu1H4$+$S4Rs*sg@Oytdb-x?_EoCqF7?{bH9!N8Ef^@*~GbVk<lc}l0
zQKQ*x$7ySe9kyNI{bKD^x4dV%yMO=nWnD$G$_&`&D0!g2%3_=;&wLvvX{o3U+)+yN
z=|X&7HSqeGAdx1VH-0pB?Dp&0_y|OYDM~UWO!QIw)UeCMuchygbPye()_<oeS*1^&
zRPeZ|{!%ub4$+Y;{8evk7Bpm|kS$&5{5ZM`vfsh$y(FJwWxP#fS*Cr=d|7l-Fc#7Q
zpQ9KVGzG;%wspL%=DsNyJu)&vbOuM&RGi0&N5AY}vtZn-Ow9u6fbH@McoZ@|*8Ro*
zn{&HK!gqeyc^+(+Ad7Pcu7t@Zeqx%Vfzj5R2szJ#4)~syfarklSMi9>Kyy?>OI71x
z?C)+8<Z}Ypu1Gs-C5<4?Ud$mPI^cT%*ykUxp2gB@<@Iz{j|GjHC`Y$l|Kbtr>D<W_
zr~Gxk1#?J!aDS(O^~C7fMkLvYI4}xGmR5iK#7snV`m+kw$y<0{V-5k)`PX(@!9+L1
z9y@mhkLa{nd0vaHX=}&&o%9tgAF^Dw`9peV7%+#3=&0V@n78km=f&P95D*=3A1fZw
z0e?>+^`hmYx)b1R$(WM+Up|OV=;)2swkJ6gm_tBx_6Od|D?FL>56c;k=yaVsHkIFh
z{J-<rNIhuzcuQzmelp>5!P-ScbZmk<JeMOltucpy=wv64S+~)(^<n4j;1Qj-2WoEb
zAs;jPZ~pm$mQQBSSGTx#rvJScB_cZD?^XmvXJ_A-#)EUY6#wOe=oBXf`KlV+Z*Bib
zzB&}7`kB;?me0fcc00o-ND3y7nW{%6b2EvEPQBCnsw4c0Hy>CrDOtSflOrHHWA-C5
z5&TrST`gJTe9yEh@rVxiyE&-~EuWQEvjQhS-@vz<FODBlb=4;#I^a1T1Vjfsrvi`Y
z==4?RtBKS4W9=e+M$5;nKdS0eK(dHJO<jmt&?gTfqys*$sx?1fzPpb5c5aRB4^0I=
z-5SyX|BeICbC5)I&Uwksxhw{G=#`pw$2{B-#X&mY^UvHJALpprUq8rnJ`(&E<@lRB
z(Q-D~+KLTjpZPwnB&6mMUL+6%>45KTmW_$`EW{#Ry@zS4%Eo9V2#^lA-(ls%q1wv8
z*rCz7r2x4di5w?L2kb8;zFF~wn{h3EJn=fo3!_Vlh>oZ6a(B4!^3so>1>$8&FI757
z2kbBKJcq6hxc&mivm?`|6sClO1K97&v5*c}4=<U_a9gBCI_4N5Iwp?CT3yP{P-6}Y
zqLc7&c1lAo)ahN8aYr_L?t_7LxO~9z^W??F)#pwP5?$@X*AL=8)=Wb>U_NIGJr`FN
zp9Zv={+_vK`SnyLq9bZ|_XmaAZ?}J!6B0XIgbS?^o&9n#^@E{b-%<+gx%N%A>m?te
z^In<h)$b}_MHhPNyM@bN_@>+7at6m?X{>q4OcW0>(wv%&a8y4eAJOT0DK|UWD3djJ
zFIMH!^>|4)NC%vMz;hUMARVyZZ<CcB3)fesHT2-vS$|2RKnLl7`EUoSJaW?ANmCp0
zc*@1qTQ$%MmoqqzSw?wZAlUXKNja_rWX2ZHXF@t)yNo)%)SX~>bhvNrRLSpoQl2%U
zQ<wkk8o9BJNaQcs*@XjsPJECKm`_Kw|FWOM8Rh-!&(*^F4rna3z~uwB>!H1W31{Ak
z(rCGRqM`L?`|}|kupTw><Xaz=-<Zpg|BhmRoOss_(gDvW`O`8|(w98(vtYmFu}~b%
zM{7t2Y!{z^ka=yuiH+X-Wn%tf4R(BpPPx^-)SKIKtMfWd(xSibeV%Sc%b7zvx>>Hp
zn2IH`#ntPs1Su2IiO62*kS{#Nc3fZ9_lJMQlr^H$Hh8k}Rn+rux#`a$S(hFu@gX{A
zI}#hhM3bJ(wI6I9URxNNZbHka=gyIy&~FBnAu7s#;ftL@nTQVCu*9}ui+uisWNgi&
z<F^B>AsuiWe#i(eYSDW{btx`o?5nT#oDrl0j>EDBk5jhR_c=`6uOHRzvUFuZbmFoU
zjMZG^nS)JEJ2l?3aUW<z%NaapAQsUncpFmd<Q@28Fkx5exl?|d5u^jo8!z|yaz)rl
z8NQ19w-Q)iXN!k)z?{E_`J7>)l4AIk({TFo>4pcS2Dp5{dKPz`m~Gy;=REC6kHZD|
z=x0JYU_IqjwNAQqN_YL97dm{tO1okW>43k(mJU#BKbPjXUBp4_KQ1<!5ew;n^?ZKM
za956jo7?9B`>G5los<!xliQsa7ciZBID}^3k7xP#H!O&bD)%l^k$(%deA_+oLk|oN
z4t#>^FEAhXE3CncRbKant_KuddU*Q_4zZr+cT<C+(w6C*oNgEvM@-<GA?pEi{!}^S
zI;NDP+vD?Pp=N=4CkWBeeS2zLSX$+doZKeGS~4f62BI@8<koMq)N?uO6#G#{w*njv
z(fPW@-2W$9{-1o@!E8#Bc2{#fTz`T2*hEAL@HOCUuUEOt42h4#2O&B=rcoao3jC9J
zGH28m=UGKG5S`o<<yOs$;=@<M9Z%9^94o~kIy$}V#%D!$wkiWTj#Mc<4QsAL%V$xd
zvdAR)_!BlsCQ14b>AOLQ&V@flG&|aH>{*3N`}RLJ>DNGXp33IEv~lf|S}0u{$vXbA
z42S3pX7nESNvqrW!Msv^+Wtmg^GCFNqShG(`o}+NhHLHh8|(`w1|d3Y-we3Z&S{5@
zvKDq}8A-KhAUfNxJF}z1BBG4y4$D#~|470iIty1`MoqBtU5V|z!~b+wC9b&^Eg!O@
zlJpW!o*y_8Jg9zYXJ;Y^(Q)!VSKh>TGWsmfcabvE;GzbiL-~%ETkEIi_HdKGoU{c0
zBo5IzYHksFO494j*<&XIFGx_IZT^6kk7pCZ%;V))<5%en%97iqr9qGmxK59LlK17O
z1!F09NhS{^HD)bqNC%t`Jq1j2jVrZBpDZnh+ARgL@gX`KM<R@uro*BVe6G+)ZBQMb
zu0hMkD)mid|M3}fontM5OKCMKnUD^6UZs%jucgaIud?E&uD<x>Xy!?Rbin7a8z(-D
z9<1W(wAh!SN3D_b0Ja`*{m-vfVN2%K#En;!6Aq`Y7_Ub_)&ure@~=*cHmB2<pRJyC
z5|k)b&_Q(Cd=%wV(q8^`F7fi3YuL@8Lv;4ho7Hc4u$R$IlE`y@|7Gf`M(g(q&o^1#
z^>tG;3Dk`(jukEuh>q~qT*VPvTiTgXezGwG9$y_q$Mt^N6`iwNJ1Z(&Dii#5OLT}%
z;T=B0v+ldJ_^0^ONz!kBbydOT1HMOE);mDiqNF5zc;=L8)0I(bBBTS3AG&P4jzEQ|
zdV98GmmMb38VQKbnBJmOi~=!dgt|EW=6V4K9?}7?FH!z|l7s2rTQ=4H)cO=SyG>W3
z<x^)<Qbi-e`Pb!$d=-wV-L4$bSvp~9)|+-*Nipwns)3o1VGyJP=KR`N<xP+H<BG{%
zL0v`Wj#&*v=iL1whvmZhk@z$6UYk_SG&o2H%(-B&sNeqP()qcqh;2)GB6HV!xSYXu
zU45F)EK|xg$z7Xwqg{B}ECSL2$Mc~zVbbw;zlC+0o~6~=S{M-^9k8C=fu-1}Il_HM
zW=G>4P16xPqyy$d=lqCXm;S=3e~M*!9Spjb(-mm>yk#D4=9rXE$>NlBCkFl9lZoi4
z@QN`QR$0eJw{lNbF_dIjBRYlgmh3L%0!)Xd3eU{o(_Hx=9WWmwa@l!9j_?X8u0sO5
z(d{Rf%F*)SbMNjBr`5ZmV``GC^xE%LKBAL(_-~yf=eW<%d~t23!lOwiNCzB;SDLwm
zd=lxVGBOK)FpANsD?&QpI8;suifrjLn<x-iNnVM$twDz9m`*0-m`+?uqg{6|3Yflg
zy|xT3=lHL6gM|)!+Od0Gsy#0{Mteaz;JL)j>MI;q351K>+?5X)#jL{IARREDe)k{S
zrITzqTTX3uF?@|Hl8_GAUvbJ8s*a60x!ct&y*U)|RS*a1fc1>AF-L#9wIDJ0<Kg=I
z45`58QnZ|}JKxXAX4-6GSh1GaYI4yCLUhKw4_oxoIz+qPdOm?S`1V8t(J{Q4(Hg_a
z`Y=uOJr&P{@O2!bWAt(1_kp~N9$v4lo9{=lvp1KZ<ug<NT|AWC-M*MBi5C~?m>q=Z
zaQ386Nk9CSQSu~&IQvy}OasyZ=dn8r*PL!Rd2di&=sd2|^2C@9(Rp#rR-c(MZqN3L
zVw_QgV8TE#T0Y=8La~Sr{+Q>+(&Vx0tOSJ{cgzoa7$G{~IYKOm4tS2xKoMF#f9F4p
zTnikCpQ^p!BRuXp5ew;nzc1&i`rrNgLhsjE%ceq$k$xX1NC%uZ`j+Qzn7hq6<^K)E
z#fHR3iy%6OC-33k*_}(2nra-(*VP(dDn!fYkh=eC2gdKY_=JFf+H~^=`H&7cuSyOV
zY)Ac3j{14~JJVO*u+v_U4ww(6huM#tF*AXNj&iSD>K!c=5uHiqrx~>Lm9D3$V@&AJ
z1>2D!I^g$eYYWhF2G1k%LUgYA`n!t-NaGBjTJ9kk(Q_&yI@ua~qeQp&gf=j9{9BZ#
z`alNhfc>t1o%e%jH{0Hh8>&9)$~K?7^3n2HILa*CcHpLD#qG@J`3a4x5r~f15AwZ5
z#?7?Y`a>N=C*?lv)QNh_s5(=r&*{qwALtMrd-oqnVF~^hici?7$dj#p>UxKk54esx
z0?`5Y%jh6F;CgI2L<c;tsVfgIAMm~me)l#O(gEimRYO@?*PUKT$vi{Hgaa2djS!tV
zM&E0DMfWYwcXYg{k7M7%0_lM7Y4_WCoSzWBNS60rbOrz8?B%swxO~8Nf#;KyBRc*+
zOTLA^^Lp0r#MHg@BkPVEqQm@ShO5hHj32K_l-GBR<C8>ma{Vu;)Avp#Ve8)4a?tW&
zYQJI29?2$+eJ8XW(E+~~=?3Y5<5{pwvvhWpp&mPrND<Mo4Y?k8qwQ55w*LYL>44)W
z`ps*K#v`eonA4n%mh;q$@=LEqZuwwN5Tc`g<bUe{$`2G^`%g6xof`)!`@2X#nz8*L
zI7Ejf{bCr$PrA$4{+;G5w0!>0_stO<wH>EUsddf>Y+suOqEjIHSCHc0m0+x0I7A0L
zZ>RY!T0Y=DvLHkU+()K?=oI*!Gmh}NrGcIQgF|$@y1Z9%+v|5Qr#TZXA8=n%5TcV2
z*LnGXFJ%bU?;41X57Vhb`)=yYWAif((E-nyY|eno2b@>I@2y85I{)Xp$%qc?$?~8C
z-fGSC#Y+^?aje34NC%vsgI5FNokZS<MH;GPyADY_Af?0Q13KXM)`^G?_?>hDq62=n
z9gpaM=WCJPpyhL2l;XS*kJA_Ix*#Gt#b1&QzMI@m!|v|{NCzCx%<i%#I__)?n8SzY
z7`A-M%-y7WhP7)c4J{v++{>3&ndBHTCm+!%=kVIKOyV%Qkt@i1^h>Oz6Ql#4Pom6V
zusZKtNRK%Yh|W?JYp~vO{?^zm4_{f;bvD#?J?=lQb!@s~_pB#p1H<>ji?HniuhX-f
zXIO5|x7l{K|G8k>M?ooq*skqKqV##(u#ci$?YZy250mLYI^Z}ovx(NTxEC!U85*&5
zuaK3B1=0cAHKaOD<TeeLz9IT=j$px4Fpvs24#9PmWM6pHOcqJ5{Kti~-@dumjDxI)
z6F4u0d6{qP(&71qs<y+e%@59;X@+#b_atgQoxQ)8>&Y(YPv)5a(kqRHbinaUT547d
z&fJ{J-0eQdNdNkLIiv%gZzC03N5gSDgaRASBuEGReu46Pu4LP!yY{aN!!skE<mNg-
z&OhM#meA!&OF=6pasM1e#tOpxZ6inrd`~;}fm?lH<d3C=?4|t69?#cBARX{KS)Pvy
zT+Z`LGg2kS97$)X5%q#}!0V!z$HqRvt|FVFRX@7tP0>#cNC!NpYivTrD4*uLhp5W6
zvM2QpOA(L`czt~h<7krerv2pWI4WhF7pJKM>45$9CW%_Be8fKD#?OjwI~EmDNk|9G
z=YF`3tc=;fmmkD8DX&&}xX2(KuwB;{Kal$q6H+8Yjc&WU#8T8kj%U!hzNTP4<VRAK
zI_+3#&ZTzN3(>h}KKIa--zNFk{UY<r(VSI^h>q_)zun7o4Du0~ee25(H?7GK9o99|
zu(Xx>Y`)^Wfot+}w6&1)DwxlE?wzOfd=WG@y2D3)_WZ2$f^@*&h2_{Z=F0iI!<E*n
z7zSBVLfsG@>D^WK%N?<^)}$|Dgus)0PLK}Rt_aTN>rDQsRLyxk-#NdpJBT1UatBjN
zOKQxhvxp~e3iMQ&FQvfUzrcDv?664jWODiLG}vT_G|}Sn5gpff`k)RI>4ffEUp-#l
z^t<2$>44|6mA!u2zxhhT?6);dT;>294XgvUi<(y0Q{pVw(dRELQhECb10s<1fb#}<
zV#Nd6^l-b=59)m{Q$~DUOGeANJSOEI?IF+fw8>iW;0m&n<%mxAzxkeyCu$)z=WhM_
zrq@MqgLJ@lz3Fq``<5>M#{R#BkIze-O;Ut(z?_HGHUFwkWck+p^L<af9J)#d>45c&
z&~E&>%^)0cM&Q%iz?ipV%|x`EL%TgrNjO)HJ?F@(rVO#v3_^4a2JXpifA!VnFOU8)
z^P%UL2BNc&DJj&H^n-YG_lSR=>DkvfM2Av=S163lCg`BH$?%*KwLx<dTs~mV3!-zn
zovIyjVoS4$>2i0%A|M^G-^bb7Iqgg7e^&bnRsX8FAf|)p7<;plA2g+^IF{_8B&)3<
zM2G0m-kFNC$Un!W%gZ)OfBd#v*K4?Zz;=CZPm8(ulEPq_j5Y1gA)&_+h>k=3$Lo9M
z8-GVNOq5%m@_nU)=-9~ADi?V&U7e`owr9qx%FrP?GDi&dhNp<^bq@V=a(+{{xGNDY
zpIztC5uV_z7_OSvVsQd}wGoI;0IjSl<2b4A`St>L?a%9mI*5+R_X*3p@nm!<R9{Fm
z225;ph>kqpxgr^_5Vfr??oop?o5o!UX!#h3Q`}fzJ9~ez@Ma>VsFz{{qN5#ob>Q)e
z$dqQ_3F)?_lP)@ljvASdJ)b_~c6@wP34h$#3OYn5baf}C+8NhxP<zHM6n8STD;_N$
zn>WL+^ESk|&O3bzznN-e7=h?)J(&|aCVC<_<)(c;rEK|E9YlxulB%R{o5o1%k)e0I
zS9AyH5S<4ua^~beRrq~{#@hqLb}x0kLd%ErAc`f4t|fU;u`29-+GXbmNC%wf88~Ft
zkF=D%#T+9<2Rs)P59xsODtIm^DGn|luwCG}pqY>kSPytEs5PQ<@qg!B<W!loU^(+a
zI$*ozT5Ml^p-o;`4rTnqv+w1nrC7Lpz;<akwti>YWll}!Ynwh&?|e8P(Ro0Xm$Z+V
zxF`P&uA+jDveXID;fw7M6)Eb@QPUUez1Za;EduF)`LNE0rFy(jUnNO?d#`GyWw#cC
zmJhh@q8!ly*Il?lI{$y`E{q@@u;24mx?d+}?_{OPDtGo13tLzaokObgI8Cmn$pqc+
zVfQR+Wd>fN<qZB#9gFCI>urn>9dJDo3!-Cfc>8d<{=CYFN)MNg{`94R7ijs=#r7r0
zI&jNSDyoDojhE8KB02$opYQZc7VE}+>5ks}=fp1~NC&*WGDTZ1gs}1M!5loIL%jBM
zSkG0r19PUM;qn3Nxe)jE-tv`mbeNNm=oq@_Dwp~kFUK4=MCZedz&n+;U!9nvi0F8-
zy)g~32rb1N9HL{O<?g_F^Rou#bVZ@%>^MT^kaD@l3v*%-ox`a;RPCH~o0vmDbPgnh
zWd&`D1Y-^#qO+(b`ItH5*;mY2dXARQA)|TTJ-299FsB^R@sW)2`x5Y$5_7x|9lG3y
zXOFDLm0*qrqEo`eyRe)h^$K(75S{${C%ONucAmhTfk?ERJ!=XgBG;W?Vh$0}VPq1!
z)f%(#33IFwozcAI)*pSRhcQP4(J@$RyV}h8A_#NVBGB?#EUkW(RgIIuoLWTZ$?N`V
z`d<svm=lEPaC*Hfq9A1aSC0;&lV%|I`+Q>ZzOk9JZ~ui3e`A4kz~>*{nCxbAzq`el
zGY}4!Gw2vj8IrS+%_(3`ETZ$vS>OvFGno+P7$G_lPHrtVAxBgxwSW5LL_ASsL3F-X
z3P{L~hMvW~|1}VXmd|n8(bsaSQz6)QZ(|`H@cs^-15AK)!2Y`M+;5(^_*68%wQ9&9
zdNK|V>45cs>;0xf(eeSmN0y1`q;9K{7tyM|v)88LZs>dd%o@@Gzi-82klM2+EIuMD
zvQjN*fwZy&>4*U96Y{LD5qhWErS=^wux{UFzrqJO4#Dr{1m<4fc-~9-TF&rU{NlG>
z3K2*L{9W&seek~fU3`Uc3%;8#hE2p_>jBSk<quT}p!B?-dg(?)Ka-{7kR)V1;NNjK
zs~acT>ASrQZZIi*?2+Juy-q<V{=VOCaqUK)U)sr26;=6OYmnm^T%VAfm@?mKQfjsQ
zyS6l{VAsA2(gCk8PrYC1X`lRQwceMq+j|mcBOo1c9ms)-p`-)&{-Q|l_UkN5x&q~p
z4%n_p=f*+pJALHbcVY$jGkPdt>j9lN4<;hs^4PKM**IjPm>Sb+4OtI({^4@4>{6RV
zpT{+wJR!l8Wu8Wm4tQM@|E~FSr!|ET=TSDM;^VFjJ0F7UB_s>K_i6IS<@XM9j^7_o
zIi~?x59omBNQ*!^;Jg}g{S5bJyWnHr_3#Ux<xl^uLC!zmIQ%(VwxeqhHaonvedems
zfw^)-N9XkQJJ!X<I_Z&u-ba@w{<<MLo5w1OO01(U-?gMpob5V(UJ}v)*V}B}?RsGw
zv_Z)F-zP`e^H){9ARTZ%1kWW#ZP&xFlrENsX(L)M(~Z@5wL@Xs1@_nJGs^A;=g(Zk
z_D!rkL%W}bq-WnMPT1Uj_Ng^!p9@~G9MP#ORiR4>^thdLvt34e_r^0fNCzCxe<+U+
zR_QfoB&ySYKda}vs)*>6>fSkE73^gGFZ!PO<R2Re9Hay0{4%D|s@AfT+UHc<9Ucqz
zs^$>1oKus6y)znx_NjNoC;gqEm<mF4c>k^q%hB*RmB;r!Y8R0a(?E2Lzu5m-iPO3N
zZg7jA!t+fK4$)zmHEkpt$h#OK86v14dw{Yz7%iXdzP;MrKP{CiY)7eL6YjYLAv)mu
zRSiT3e4mL!bin;7%}>$t0l#Y&gy{Tm)bW@+^=Cb>!s6D=MZH7~L`OHwU@xoI-*rBs
zuIeAlqY^ks2fW^wsGjvkSl=zz{)o@Bxa@VcD+nzg@b{(&M5py|c4#%-@i%Arvag9x
z<oW18I$*oP>jj%0FxwpVdZst`nPLAU7Dxx2e;7T(w`LD~)5O-{4+Ns+^U?9@9fQb8
zH_VAebQEH}noXJ#Ntk1V=qv_tF)4Y;)nX0{qO-%=GJU3|jU3yDI1qrA5BS}sSVV`h
zfNWl-fK^#=F6wgRi}64sM91Tb2UE@{H|>AFHz7Kizl*iB)TvJY_g=yuEuUg{#b;*8
zdP>;-lvqdyye^I(HD9<y%A(9KE}OopL&rgYbinHZ{C*Q2(J?&qKBMdQ!9&=7J(3?<
zKDOeOX;NW>bC^R!baXG-;6{$WTg4m#qSKHbPjSlFNC$K9h>m)|*Nkq8Emh1R`J&|$
z6ue=9^Q2|R93rAqbPQkp*puY~<`57aaGxd~(HXZL`5gQ5z!$6@k`G!wzPB2Vv6#%x
zU=9({QRa_~7CqtEhB*X8M|yQ?yX134Cg$J~oll|<0&YIl)W;l>H(EYHb%~WKgSujv
zLqv3z)~bwD6)*W?4gt|gJ9_Ac#ao>L%)ui%zutZ9RXpdRi#a4Ow0yc*4)a|g@l|6E
z5z%os`+Z$pe$yFq2#Ag-8~*+7#Kb|&!6Q1FTNa0p=+6DOpPKXpEgx`yHxbck5cm^Z
zOg+1ZwTpo0#P&E)B;C%9!5loI^S38&bX&Y#4Rc7IX!%U|9T<LyGfu@EBBCQLTl)A_
z(?&h!5D=Y-y1z7w#Z>v2gGY3PRUZsja=nqp9MWU7e7bCZn40GNWx*UGqGQfVFV3UK
ze+_d8h>ktKQ;SEuM<eFo5uF!2MIUNf8~>ZfNFHeU9Nc|bwHC?4jMYO#bj}qNr<~!K
zSjQX!qC<?L&$2PzzJ)n>MCXdfrQn!=KZTe>a!1Q2rL4JX`b6~qcmG0kxKe&S!F%ca
z_dG^GbUqG=x*aHZEQz%XkLUz_eQf;G%sLNqNRQC+VIDj#x@R;k19OOoj!SZ~=-bUd
z0X`Eq=U6OcrU{5nFY{U4Lw{EX%)ui%ebHSk@q2buFo*OIEuZcombx*W_+iW;B07zB
z5A^@Ajk;kD0nrKNYNZmsHhT_p@Q9B3apu<{;qCUALvlmQCv+e<v-^?rIOY%$otmwJ
zTV%KOgfWMJ=#+e>eBQ@cEQ&dJM5nfLb&lflQy$DAJwVHcK0}P}Mt?gW<`5Ab@*Znl
zj>2qz%po8;Y5EaeY0eIXn1e@j%>17wY@Ctx#T=3=T0Sb01D&5zPW5085z(p7Ef4X_
zd})a}1VpD<=Wvmk-M^!lgGY3@!&oNf0%_i34(UExJ{sinOdgZo|IMpJMCbX{9IM^O
zS)Z_a2#C&!+Oe-<i`ns*gGY4C-Wxm^`ifJ)9FhxKKC-SVM{1?y`7wux=$yUFUExw^
z?%Ptrmr^df#7;nT*molWJH|PlV-6nC8Tyhj%uC17i#eowX!$sL1v{<jz97dOBBHZQ
z&cmD3f7k?b2#8M9NfD0lUFlZL!6Q1us(=4PJY<%~9Fj9yK6aO>U7nvlEsi-vL}&Sk
zW7}M}bR6ao5S?0CBM$n*x<4A78CnSK{)h00&ao1qjkE0q2AD&-i<VEgyL->Lp5Rx^
zAtE}`th=e3z7Lf!hk)oTaXK;eS+3b*4j$1t6B}hZ#rb#`b4X5T`IOPkkhlDMX^uHW
zL?_5<r2b0k(JIU#AUfHb!H*AG?`y*xJfg!GM_C#hMR^NzNRDXvT-QnSOIUZa#2g}`
zle66TRz?)BjyVKG=aIzvy~mYiFEIy?=)CyH_mN+G<s{~i9MJOVCReDqI2nEwbBKt}
z4d$^E##D2Qm_tBx&b-;PyJjY&J=tR-&dwUqf=6^tENl8{|1o069Fjd+KGuBl4$-d;
zGKkyPxwmh2au5-nlP}rlLdZ2{g2oQ+%r-Nw6A+#JgB&kgSx0**lFKB&Hd(jg5uI#f
zkFx$1GxB%A&8;-d{I^JUX!&gL^47kV?4wN8Ro2X>IF>_1bh5sY>r+pR?jBbT$FIAk
zN)Zs9a3jy(rv8)XH)wKY4QZcC;}IRT<Ac6D6~;o?`QfBHX!%szbf=d}ldk3A0;OHL
z*Jp{44!C}GVVm`*Ly_CqS{O6`NOkXs7o-FJewuc;-#tw3F_*YQcfr_#=RZY6CuQ%G
zlsm-sU!Uvt5>(6t%*Y@e@OR<om6EGc4t|P9Wf_~^B&7E?+rs4xt~<Rty0E4%vXZ0v
zlIkY~wY?t^(gD}|jkkrE3tg!iU43h0=VzIFKNivf*LgCPUlH^EIBPH0UsFvRG419B
z>45#-^|ySFVe+DV@*LUS@VxN-1V{%wzwX&Xoa(%K-tAq|weCO_m2?qAN0B`!aIa?m
z-#>+GPkH|wH6%lHY)(3grawtL;_mfuP(fnMw95vr-@)-L;r-OTZDS<skw?FC>>CBY
z2t>z17pHoDbE-F5-}C+B1F}DK5S{fXv9rvcPDw5vuW9A9qQ1}}I`>C3&Sf&5+^h7X
zRh3r#9d(yAT0RG6gvFkmIOMZI(hA$Ce`y+l=$sY4MHiqFA<bH+|BY9`#XtwqNx$;s
z*5QtOshC5D=vc0Z?99}QM`KRcZM1wEPN&z0yl61ToCri`%zi{Bf}bk4t0ilk@0nJm
z4x&?XW!+}w?#sl2P=z@Cc3S~DMCY81(2oq3t2a5<hv{8^9Np-$g3AY-pYQn{bv?Pu
z9wx;RM&WCJBqSEn0k2byq%U8sqNb{KSyGu<zrPzbLUbet<!u5f(lWg|g#-SK>G!c9
zI-ESo`s`hGYh0rDaQgSPwg+y(<pZ|s^ToPZlUx7WW3YJcEeAu~QY@qc=InRrX3*7*
zX~u`%a{Ov>m!=7j4p`6KwuL>BbS@p7goh6YWdzFch|U2jwi_8r7YDR0EM%h6TTYQI
z(ejbf<oN3@Tl7Xg#ac)3_O<&&NC(X4;C)6qDWAs=_%|IVaAi`LtRWpRpU@K1A>XMQ
zncqeyM5{ZddiW3>WBb>OTpsyaRS#Oj>xdutrY+F&@z?VDayM*)Dm?M??sifSO(vqV
zIhX%&B7Zioh@R>8s-uvnHKYUPd`Dzy={=K+AGIB&NO!rswg{vH=6rp9j@I7p%DUIR
zw+RPMwsJ0+qvew}7U;qyeDE9j>b`cBP!H*RL}!_T`o3n`{wEy2rquuU9kFvxh)(^!
z9h*jN-#zoZKP@<p8JmefI$+M1a48HczggK%B<cv!s>bH8-9*brW>%-qbd<VqaA;X+
zKX({qIijO~f9D>JE`_gpw1W#1SIa>+MCX*HxY;3j5A}rSJUhx)+BPI19Wb9CYGIv!
zGnRg<yVM`@5t6?{2I+v~uts3XKA=x<WF$S+hq@&4Of3N|=SZI;;)-%yKf7Gz?w82C
zB=bUayf0)i#>D5FP4P&TbwAUORD^WEd_Immm9L$%xD@YNdAXFHf)xkpfcYFV%3)c?
zuUl@tO=>>IRr|Qv3@sl~TlRBW@3%G=lL{1svm-ACAv%Ol$8HQ&QF2L^GfeDH-w@S6
zbV6op21f#8969!k^n8n9X2U@`V9r*gNS{i&Ws=*Gs0gW8<EgG2X!#uMZ86C>ck#x(
zy3XKMCknm@MCa(e?}N`3X_M668>o~Il$_K-bja-XNT1W}e2^yGeB!S4xj8ySN6)<>
z^~Cq0l|8#ZvorI`T)Rxs^6|bfXd5b!W^1IBm@`S*W{iMz!2bHlGe&m$H2Z9Ifj0kE
za`zb{NC&(w7I&SPZQi)&Jnc!3!v*>1vmiS9Hy#WRhtgQ*kJ%?)BrR|an4snJkcRS!
zv{<t2>c#KRL>^`K#3DMuC-<Bq5;_}gylWXWG;(B&ARRF0ruh@GGwmx)*WT>!rVn_=
zgNJm$oKtwt?0x0%BO`aBP-Bmvjw|UpT0Z-_&kqQ{a%VZJQGJ}nnSO_e=x|3BY)bNk
z)G+Kdi(M@Lq(MM*7T7n0I2{*d*<CiAC_28(;UOI`=NI%xE;*ks*WVG_NZ0V0xHNqY
zEg#l>QrCrTBZ`N{oU|GhI&v}*ol3ELejR$v^Xv|bl;+>+XRIL|uw6y9yK8TsPvPh-
z-1pX;6zLU#bincB^(&Y8$;G%0!h;~^Oyib)OU7vVu(;0a$2r@!&-P_yo&AuVl8@*V
zD-_Pl@%c9J6*%QIjH=vnf^@+5bqUALtMc!QzI4sFUYPf^UyLH81Lh;}^(D)b%>X&`
zJMYeR@1r_ShUlm#Hl5dAkaT~=@Ty%a?CSnnBea|=zg?Dp@GntJy`s8jE^g$K7oyYp
z^wW(1was|)sr@l`d~)0rAsuiWzA^L)51!-c3Y!^kh`PsBh=X*%oGYl-D@XPhoZKM`
zPN2VfwXyjsT0Uvb@)rc(n34I<lJ+$1DRvG*bUK34<(rqQdWoCqoI`Yn`ZXXOFdzJp
z7Qc(J=L4OLqy3GpMd#B&I$%CafqXd^`fHW^@@g$URWuU2uAt@POv%(qL4V6g+jjY^
zTSwo=2t>zWE-Ey_y0)vo-!GbB;e)>pqyy&To>+QCA}`5{*7aZ1p|xiRSs)!SpWQz0
z)n}9bR?@l;7?avMNdtyx`CM}#7X3T<bX!`-w)N4aZ<Dcz&UdO=NB$p_>lOEL4TUyQ
zd`5^)=+$)Y>NtxKQ8JI1jA?OR7DQ*y1o_f4J)3E-1{yMY_8PYV1GIcD{A6YxmMdlE
zEKhjy<DdjbETVJVF7<R<pHX4pSgZK&ceb`hkPbM0+Rt$4#mDpTDx8y<O-*>`j)!!>
z@k4m$Akb|Q(POaw7$15=R-B}dmQUvYPRhmADoJ+qXIVu!Z;BBSou19HmR0tDM%o&Q
zg5PipegsGd%*VFTTspN!#LZVTJdW<;jeI^x2h8V`NahVoTB*GsgTBS41?169>!IZ{
zBl66b{a<)6<IJj(Uv}ozOh^Z8m!nH!JmH>Rmcg2_?$zn7W+zAoY?rzDld(XlZQCa~
zlMl$)EJj5Tof0A^q4Aln)a=30Gu%$1{!6-O`PhuBZ&o((^&DB6vS~7mbIM0_hDYKh
zY%fq!R2p+rcK1$KI6*pK&LL|noz4REyJ;FyU464Q;*yXKn6r8(-OZngQ&*{*!yi{G
zQN3H!LCYt)?2R|ov44Z7sq?<!?0d?~5uHf$LV-(;ZdWgu>uo*iBBr`QI$%Dug6{No
zQu503l+5Zp*^9RoAssNEGS)(|J?|rzsA_{#rK-2p$Pk^Jg+T2~l`L$2oq50Yx#rw!
zwc&CG+a*@D8*DzuOwm`QP5tjge{c|_1GZ~RtE%O4L1u8=4`a*B5$T^Ah|ac>B!Nqq
zH(~e&-QLi{98YnO4%n`<RrR5QjIw8KuWOy7bGEeXx(t^O*e;T!#n@*na&?cj*C%c@
z1lmO)I@|Wg7F|=%Sn@9>KjsN>`mTfMyfxunW2QRRaKpbu;p$skDmp|*_w)fPE(2NV
zsCNx_PVKFI)O86iA24Ts0|uE~=PWgQzeko$_P2UtAssMhney5<N`WHxE14)Ii*%a$
zj1V1#q18{Gr7z0_uCiKx<$Nu}g6Qb$+;DlwqSxj#Ue~fwB9$_55iOq=$Eq8Y<kFku
z=PY8+iz=iNAssNE^P@`pUngsFee#HT^E;(^hJfgNE^HjiexzMfc~z#m@C2z9kLcW2
z7<#KXcuL3h{oUg5G>sn81-N{`cD<-rYpRKJ(%S1WZ*PAp^)M0A0mosiSjO`+f2~fP
zareL1vc<b-4e5aOESY{c#py_XE_Qrn{(zl$lMm4muR6pkepWxGIEj6_pYq@PX)UyT
z4n><gQiZ$iO>I0PL^aGlmWk;6?#b(H*}HYREGBRtvlZ8{HKYUPJd|3STclx`d+c5B
zZIh!nYD6F%Fy~I?jSpKC!mAW-_3Y^6uWB!8qUF;!M)Ad$i=RDg)k?o$XnZ;!(NW<Q
zV=%0;j*V{Ro~&Xh$#6n+o~#cEPt#hh6(8*H%*=Am5<ztG8`>W3E7R)^sCC&Nf>S=V
zq=A-CjKej0-uJz4b1w1Q7GFE8kq_yB{Vp6F)iXZhpuB1N`?7m){zo@R2kduu$6}ZL
zU$4F|KTVNcc_;X#B%<?gSo)Hhk}`8>XQ(B+%gaY=>S+1&|LQFEAbifJxWC4<^|0wl
zIieFR@vPa5V3`yaEn{((z0%1I(gAaxA6wzier>bx$4n8&_6_$;5z+y3es!tXJnz8)
zLGSRtf_rl+EyxfZYMJDL!y{8G5hCwZh?}WWwQ6WN|FnJ^X49n>pY`-mryvDh+Y8b8
zr<ZT)C1If{m}(SFS!n-I5z$HPyIJUS&-9xWPkO0a@SGVLqyzRBgD1_wd)kB;nG{*q
zt?F`ovnpCXrUxA-!Zw9Q-HFAvbVk$<f*>8Ro=3#|oxeG~hA|Hc424{|J9Qu(aQu87
zqUbsuov<;Q8XPbf)y_bN=qO9jPplklRY`D`a%BDA-z;4!X!#f%Tuw`O=+2YMbsbMG
z|6CdY>45nhy)Njy;(O1!-#edlJDQ^12+{%b@x0X#c2RPs)FMEjH$wLC3Janm{>bCK
zMS|@a#>GLQ(SLF*1Lx85sbt(8RnL8_=ReM<A;34r6N~6nOZZl*X3JdQJht(IDR1M0
z5uy{!`}U6S{>gw+&aSL8Cj}p~AUa=9*$9d1hOS#A7#3vo+v*P}!{r0^yN0UKAVcL-
zwTN8J?XWurcZiS<*zYrE?v*WlJ2+pb%1J5Uo;E^2bgsP9ol+NUt&8CZDB`>*{t%Do
zaJdE?cy2frq1=Oi#HJk`NK%5!2W;1D{N|tPaNg9)n)lij`>n%>h>q4HqF4u$h&vnG
zvm8C!ACm+~2kb8u+_=}~6QjW`dcC>uNW(NfNC#}!_dPGn>`oO)+IE;y*fH0CoK{53
zM}~zZacfwl^MZ)>^{~Lh5t)dN{Q@7uP{Zrx8S7<vL94;b)`(6I$8Yhl%k@g7J0F8(
zT%F1JARRF0#E6*GvrEyVzrS?%CXT#`UQ$5IXJ+z!d@Ivx9j)>CGK243P5Fq9NGyM4
zrUF6fDYFyxr7R73Cq##D@4|WIM7oqlau>DKDOo-dM2DtYiBI_L>PS8F0;xo~oqtIl
zEuVItIDx3l5BaW_#q}fQ@0#Z$I?-j?1G}1Kv%zMxFGa#->zyDSu;24r-LjHfuW)QB
zyYpWiEjuj<>44W)hR|xEMNS5N;vDPG`F-cx*5uIg>7HoZP>q{(c>OTpsM+A)wQ@)Y
zY*(G}%#kLe)eJf5@a1!vne$$d4%n{T-rlmKUy@Tf`|2j?{HSFV5uJB4=dU=_|2^(u
zSh?EY(?TFabUeQ8f9!C(^o2#mjFx8I+uZ+$vpau>>i^>gZqHVT7*v)Ng%E0NA&G3E
zWJ1;!kzE<P$QrVxQPwD1BBGI$vS!PY43S+DSz1gH_kI6xe6H(!f4I-}nm^!iy<X4v
za?YGNb55NqEN9oJ=Z;CJyZ+s%F_=~#pIZvS=%91{YZdo?g4162GMmMmyxuI2E=C8P
zGuQU?+T|;?)f0w3$L$`~|7Hd{^Bh(N5~ck@_ZOX*mx>$)TU22AXglJ=9>|C3UQ|=Q
z8_U`46$NyL2~*SZJT|XWcxgX%rpPhq0-Xrwf4E0;<qsZ+kG)tLDT-mn=%B}I?9Lt2
zZRh*%@#cy@<TtZk=u(E|6VnpekotvzHz6g{RlIA;C;{l`olE{Y9h97?yTG*Ip=V@f
z40K*~D@wAP8t))$oHA}da9ouW=)|a&y{_6iA9Hs8+VP{oBFbG#uzXCrY>)fmhNAis
zir=JMqv=QhI{Ov7bR1h<UaOT@43@rdq8MXz(Boco!}}EfhZm<8_chbs=WH3rVRX>z
zbg!7`u*^Ll$w5Vxgli^)1PUIOkC(6RKzlHu#yloF(~8t6P69gH>vEq?Wqy7yVtOL{
zOZEXV0!9a&kM=ub`rj$)A$@vF&$DG)G=woa=zK1mSPiL=n~={YPSu2UzFZkS0?TJn
zO*kY#eO;JO<+50_?5$(j7#(z9PJ6ZQU2V0$xi9C^lCXBxR!58uy05LhCe`9gUoSrY
zDApERJD4j0bjrq(KJHsexZ5%rrtdC$`S8qPSU%n6Z_2xjCKE2N8~M=}Wx5t%bkO;T
zd6`*1P}7}{mYp8-@Fk_VV|38@RAlaG@vH3qL;vjJQ}1o>7-WGC-!G@@(*}X~slPX)
z8-5;MT2zGPlap3)eTDJjKv4hAE9*+8?qxuSzg$e{_Drxz@5M9c<hgBE-GR;xt^_sb
zBSOMkxgrG>3|07KF*@k+B41eJSZ;05+E=eEq1mv)O;v#9llmg6(71;=X)e0D#dQli
zfedv182_}+`ny|WQGa1;7xTbjBG7ppohvK#+j$`@u;=%^8YK%n(D|%h9mdn<t)E$R
z=GwrN=u@gZET5AtPFe1P&5QG0H+BURzfY2ZPX1?}tc8J+^WL)k_HsQ=Pl-T>$u%gL
zWwtN$O32#BKW^WS;DOHFq}<}Eaewl$N;RKiKD8X`A#C}e=b;p5yWH)94#g3-VErWV
ztIz8&I_Q1FSLQw6X?<Ublq%h1GaG{^AwcK!4>9g7Pk7f_R%c3mik7%EFgobIN>`tK
zu1aUS?Od*>;b2{;%Z$-M_Z7O%H$xqKZ2j2EE+}UAi?c0q*m6cYnrf@uo*|Pxq6YE&
zwCo19Q9$Pk%gvH+Z;X}F!>`mxErj&yVsy~?xG<NA{-w<p-j&35hT`wb#);8E_jUOD
z>wy=3dM`$*6Ks#GRY-NoV#^0zPt;h}7?CMmi=j<V>Tk#Wt0asLx}J!khaWt?R_FxS
zFx~Z^9uy(~os%?PuVy37ra#zilds>-k&Od7M%B`0zjnMo@>(I~tMj9??GzbUK1XVm
zS#^Edb8<QjTc0`{Qq0Eapz~?F^!ubcP1AHu175V^z>RcUpkv9ldWCx-PO52W!$35G
zS6>*TgC6&W+6}xxY5&!Qu5pfN7hb)YgV^#x_oY_jrCT>CSw4C%OeNY=`fLHvp;;5}
z{5*K0N9)$*c>}`IB}a@7y04r8>4VDoh9ZA<>j(w$oQsmh=%D+$u;ro1K+fk+a`O6<
ziGCj+E=t4l3GxZHiP#pk)9%LVcGjZ}Tgosx=)R2f_Fw2`-~U15J!`7)!I@PeMhD&3
zh@ph=j<|}6RDSxmPupG}zyqCi-m@Mf3w#V5Om~tJbf#OWQrPlA_r<`FAgf^i$vZS9
zT;U|WENdM`2i?~`t`XCa*he{UUpWtso;vRx0(9yVY7BeTS8L;MMa-Y}-Kwd9(Lwj6
zrf98pQtnmN*e4y10ORoU%ov^j>C57Q;Teq@Rb#t$ab^A>?iNXGIisD`Ak#S8OD`<A
zKS*csO$k4a!swv;x@2|5Ev@CffVEPqFJ<K09b=3Rx*py8{QN$)hC^*ZpIz23A9}<I
zbY|k%Kg{+2DUJ{|4}8|G$=7uNTR!N%)CVto>y`@$@HjkD^CjUM3kjox?kisXcB1C5
z@akTiid*ZgpmqY#N&aTgcs0b*skF!3hjgJe00(r8;vDPW^DsIlikojsw@hoK?1$yE
zbM?(ry;3f&kyBnt%;U5Z*%%#kK8Hq*2jnw6%HGZ6K6smV&D0j?WT$!?bL$je{_s|D
z?==ltc43STdfXKq5*DVu&<%VgRa{#n=f%xPV9N*HmrKnjA$~5}?7{c(fh{WgZWaI?
zoK}icr1<Zj{{8|j8^hK+9WgrSz9OC-`~A}TpUee?J$2`Pdl6(YI{(wxffJGjEID+N
z;%`Df#b`ZW6o=*GcBpzwY2U5OV&$w7<tiPg%YaVvRoghCXQJoRgOyv7OnAKAflgHp
zPp19#6N1@tQDHBq*xF@*&ev~r-KCA5Q&u(^a>qMc+7|a=%LhGPRwWxOmXEj9a&Z{Y
zzm6|cC1Z5Z<7GsP8{a4r7<36QIcRsWI*AB$T1neo%8G5R#Wo~s62l&*;xRhtzUprp
zOKg2rV@#X(;6N>V;9DAu4!W<^Jcf<{&u3l_|4><t`Crb~?ZuWe+OZa!5Z6477jZOC
z>SX6{QVan)y!B>h>fT2@in*IHd$us9Ndu#U&SyQb_QfGbfxEY|yiP9}XzpOf=%D)w
zZCLE=Hqgte*>@996m7iPA_mJxZh%GY8M$|>Pjk_(3OUh)D2xueuN6sGANm*m%Ct^(
z3Q>D^wish{(0#qd^({}igoKo&wJ)kXh#chvI>d=kk<XG`_pT0lW=q|CAJ?@9TR!N%
zSQo}yEf~@XG?DvrEEN~BNf;e;Uqu1NjaeRJbDe*eJn246a}j`!l=P1Kv{F|8D4oPQ
zT*3uu97YG-S7`4Wi*M@$k+kvkt04=njH9C1@<I2-mf-natWthuiu3BbF}J{n*+8d|
z_wfCgy3@g_C)$&3B&~1SVsy}bZ7-S>d#k6TcemXl^4Q98O9_k)y07p@XRS$B7%5`O
zM@`h~juK`>VEGh2!A;!wzSrL*gi_+VW9R7tj1IalMHBw9I~x7?x0e)lUt-S7bI0hQ
z`&x@g{6`T>ykhM@RpOE#nv(@Oc|6015?j7;aGQ$ipEoaSSQLik!|wixwV0myEpz%`
zd*we-3S}4_bUucL{GJl)ykCQ)%c}Fv{g5PLbkO-|Y=mk|L>zAP<C^-hufw4W4|GhK
z{x&rz-8<odJ8(gt{l_b+5G)^&J?DMjDep{SkgyMC>R75JV|38@+^DY#Jtj2Sr&4{q
z|BViPSqMf4ozJ<GZ&u=@9yJ>WHiu;JXb?4kj%Ct<UH-%hckBx1T4+(B0S!h6-Pgti
zy0FJfREwEkuG&{Bnq*pb!*b5w!e|nv5`NEI&+zoqOxC|qK!^QscE>?$8h7{bCym96
zX??mF9dut)pH%XB*1OYJSLL6)b~b;{iP1ri*I~Ahn;fCdISb8gQp}T@U%Pg}^0B;I
zHqp&qzg@2<LWq&o$0q@!gYN78s?G@iW!?yR&tp3a)&fHb7#(z9S`__|tR-vLm}|Ll
zLO8l89MBQ{xaC%phP>?Wn=dH(g=ZHjJF(@1?u&typ({|eBH>g^|A~N3+n?DO9duvX
z#Iv4;39LoL1|Ju0hcGT%pyQT&W!h>XpdveVsclPULBBB2DM~*1^RRPB!IktMbfH5@
zzN3P$d{m1&Mu~G&^Kl{T^6kN&ISMd3=zK1zI+@Qt`x(^C)=S+V`H{vEqk|r=mA%tl
ze-EiQv{K)9d|?_|lEvtt>oNc0-)=R&av(Dyt}XA5&ibMNwtUcz=l1I|0qR6PxihbI
z_)iH2lwowxeQkH<cg=P?aPz1(eSGLE8*d^;2VD;icTm6L>)*+%yTgqNB-{vij1Ib<
z%wZnq?5=M^%3&wl8MhL*(O`7Y^{mWyJHIV3=Y1E~?pVdM=V2W`Eax1$t2=h(^4~vk
zKh!Ravf&$o(LwjssV|dM)MjQDeZ>2ngl)pIE=C94SKa4afp;xSl7}u$sg2ra)-wYg
zNnV;o*FWdZ==U(0Gx_g*)PjTMlVRUe@Su;DH~8V__zC<oo+ykCIv>%UaX6{`2dud#
z>@JbIuPPX0bkO+>2#bpBthDaADmoOueQO0fC(v2z5A9f#t4@9LAY7Yi$>Dt$AGUnZ
zeQ8>c9)GR)`74vyW6S#T)NLe;4!W=A%U`<;CoNrHJ#Caz{T%&)0Ce8^AF84(r>$t*
zzbCQ$EmakV(Lwk1H<Iivcq1tG$T5FyuW>foQC@8Mp!+&=k=<`5RB}nBmes3)b4Nxt
z&<RiV`st@`e`Pu=k>eBpodR2+qn-X>m078vo#w55zn_uuSz(}aZfAXH<vy1^e2r^*
z2cmi=Mt5M#2c7eNPQ^X>bSiDLB|F6&@9kPC!04cJp6|EoPY+h_W-Kk^KF>aJ-Vx}0
zdpti|Z=5aQ`AoCy;f&Y31V#tlSCqITx22lkkrm(W&nz3H*+m{~`JnsqZ8~RLGcf4G
zSxo!$LPwuV8PEy6P+6!dlh7q>q4Mg_(_RyIj1Ic5RdI8_X5C?b-hM;L3%}<r@E9F*
zUv5(-Onvxj<p+7hAuGOKB`P;8A9ISH>RSH&>9bMHle*1jm1Lkpxu*Q`bd7X&HTT6}
z%CwXW5u=07=TzVCG>UO*(6#vOGG}>qcWYpD(D@9_#;nM(^{Z@M38I<L+5d<J=<qK2
z23tF79T$*hE9TDI#$LA_Th8ddMz+_=YrX4mRVwVC+f}$_Jqn|P?#t@Z-mdiHD}B#v
zJ$Tt1n(cIfj{DP@jT-)&ezSYpAMYT$e`Ln!p!@pDvA3(|iLOwnLWzj4ZKp*S7q)!R
zeGNZ);TmJp_iCqk?DR6N;GP7avt7h8=ur}T){XZpJI0e9Iv4{T2_Eh8Ys;y}cXvO2
zxL?TKkQ3-s1@HTMUQ&o}dwVCH^71$DE>2iJeYFt|agHLi5{It7-|x06p8#~M^hVBo
zF^n{{&cAtb`@tJ(#z4o!A)C&8^3ol<U)CY_J$7E;1UeTl^lfln88^{guVqM8rC;sh
zfaOEIUFN^_Y-*#&Cx<Pg6CE!SfDY^K)fv^Nkx92$hm{JC^i3E89b?W&!KVd{V{L97
z+UA{CuX6$&h9Ci|jY4BLJrhsW-?Ha6UE5&!kUE_Ci_`wqYByX>KWui_I|1mh$8&|P
zOpb32nzOq-rBKXm40Mj}d*A#zW~?nBY~q8#7uP48Ku6-^n*Z9D$yDm~jr;A{F>zg6
zVfln7)RZ-4SN$~GKl<Iv=~++$&@r&Nd@t!PeS}}-^!W}KGhbt%qh+uD<6Xc-?t(0b
zDd%2INlu`n>MV9EtYm8%c{WS!&FB2wE_PTxd3(h>xHH9{XjX3DYrh)aoB(v#n$sdv
zenc}FG`X+OO#OLa40I?>(pp=z&Ia`EA=}j->ATAbbOe~#mE9M<997<+xt2;R!_vhD
z%jc1a@Zp;_Vrg>64!DktJylBpI@g4jhReB!L>8nD3aJFVsWS#TKLQ*(7u;jm8_ixZ
za_T6@asr)})~J!#R}p<VZRQ=k?h6@Rtgw7uKRy!gy^)jPOgE!!ypQHh0?^sh^@yaO
zZ&YKh7{sUW=1{0H(An*5{^9cMTHR5e>g=bnVTznU=fL{s?duQs$=-VR#(|$DRJ@A?
zmQPx7!(WTp_oZJ%XAh3HnC2w_oz+fLsT&nXLT$bY8KoXQbi^3wFzoT@aFA%P+bYJ`
zomgus$_aEvovlI^tGVJHe2en&knQg3Vut0@q3#kcdt%#@IJ|<ThvNC*1fV1JxLqp$
zI{BLP!hwLu&i(g{feypzh94j8dBrFv{k1P#{cw^K=$Oi{&;31JcKU$PF|(ghPs6*m
z!15_S^4!mg<jfhHuXObIB~gI{prdtMexBiOSEyf|<I13UVW=_C*}=vV!4?pBMvVED
zmkWnJ4JXhs?h{S6FE5Q?X1pA~kKs0L7ZWU>Fq2Ew#*t5CY?UtB7BtH<B>)|QV$H5_
z#h<;}W9GSMJ6KeVflkLOMwM4*R)x4)_Hh0_vwoTr=+s_3InqN`3F?cOOM18Ml|>gL
zEFX#Lqx;>%P6a;IILR`^AaE%G=oF3E(8Rs}G<dTxy0CtH_djEx6TZUw#Ys9e+vf_Q
z!=S*K$O&{3B;G}-jd(rLE_i)wS9U;47XvJxZNeFA!Ey<vB)0xozZs362|y>fI{NJ)
zo-)!(51q}dYFC;u(0TPx<N$5faD7vx=>L6b_7Oc!s57+7;<3ylr9eBMu)WcWL0$B)
zd>-xF`Ccux)0x)gmbe(d$L|E7V<cJ=<f1FXz-w%_WPkO}H)Ei4C8i_jXM%{M65B35
zMe`F{oIodgG@Nnp`CkEr+3qLpH*OAf(ZTX5WO;R&mT{aQd5(9>*uU#P5`a!|&bVV6
zXWPfgmwd7;Je_BafsRE4z4@5n=+Lg1YxVQ@MUHa<od*qi(#lQ(4XQe7GdA4T8eO!o
ze7@Wv8{Qka7>bNn0?^Uf&f}p*W_dcXlQe!gv+lkz(0OfCekR5~c3l3QN{5oY-&szK
z4*L37qW24_lM~YpmbeouzsI$GC^WEqc%!T9cF4p&K=L60o#Y`!s%wtt5oFv6K&M`D
z$H$o|2}T8pVhhE|C!siu4mzJ+<&XdV-aNJ6bcS=DzbW(h=*H^C|NGGVe?I8zhkp10
zYw_^ADo9`1K<Cee#+61Pp#;RS1v(|+`a0YnzGNZmR2b+)C(BQmZdKii)HAvc%ZH{!
zV1Apa91k*ovVqRGd)-EsJoavgV+(Y&(z$uh8h;P2U}R?~KHBk180ZLR`W~eD@LG5?
zpMS7?aE}b)cTIB|Ax<{X5!z}0-Eg#MOWCvMGv>yeyKI5ZY*=l`^6j<{d2wIn=ql;t
zgn`b-=D)N1e+{Q?go{pyJa$bUU4!NG<a<nHh3IJF+<U>&>U)QNWn*;E>wP0$@;Adr
zM-t*V0-ZevdZyaU0(B8b7U&q$#<PDqQj>Tm;k$2%LRlbn6<a=xsQroGEp?ln#t;YM
zP=JnD<Xh_K0L~q8$UsMyS;R)r<(LuTkbut6-0wYNj%CA$Lj*d@Udl#c<>H4ChX8aA
z-C((sWqR)i;^2Xf8k=A#nP&MH;^2Tz>7~&}=e*uVAP)5}Z2max?RlJ=)VhK=6rjV{
zQ&`&jeE2Eikbw?+LU8{b$<{%{ApxD@mwWpHT_O|_hX{14Rkv%{a*p3e90Jg3C(J5Y
zc!*6R4j$-O^_U+CIiWFtI5?nFoyom#aFj(7aj1V_^M@gOOI_9Bt%Zm~0XpaS0&!<5
zH4PAl40QgjWJHLqbVMT#3FusClxySH*UUp4BGBoYZ_=xL_v^p;19bKrjLQuXmJvYe
z!2_Ku*)l_y5=S=I7Y^tg61ZOyPBQ)P_(g@ypDyRc7B;i^e@I^xpz~>m7XMG-FO7&p
z20Hw7TPHm^Y#t*H3Fy?sn+v(98-^ne5$MeBGd|cZF|LL<1fWyoEopdD_rhj9c%Y-9
z8hPE+L0TQD2M2V-y*vI5h&-A_9O?>e{+!Bd_7;gsxQ;j!pd(lkJiq=Watv|EK&LZ4
zBgaYoeI(+LfDY|!^^U^OU}nT20v(#hVyBj<uOASH0Ce)SCHJOX?R$<mc%ZX;tEQ;^
zYc3q(;DFApGbSySt~s0gA@w(G{)pVfC-YPvOhM|Q0G;$lnb9M;8P<qH20E2Aap`Yb
z5Bebv3Fuf(39NW&TvI?CBG5_i&nbV-=QfQv1fVm1m3GV<@4$;Vc%b7X{iARqQ7i^=
za6sqBKbG4@1=Zz<L;VGtKe(nV-yUz5vp^gQ(79l25_K?s?+wHu1D!Czwy!TWS^P~Z
z#01zL<)0*BbkNteQjZ1TOjI+9GQ-?zGAwQe5rB^8)ODMid(LfXJ-_tT>q4J24(Ldn
z*kT=^^CBXes{J$OvY7?tC${lI_tms9*t%-A?<3-nfDVH!f2bOJ+dae~0G-oJ+TV9l
zntvwRvkBPlJbeoXblx_-d=}+wpzGqhaEH9u^NR8VmQT;LR-u>oi>RWU{l0=_E7~NW
zlPjw6LSrzf{rLyF^4?ja6aq#E{eE+WefkcS?Xxd6r!t*eZrKe>V06&q&c@_Y^3r%Q
z+?;g$(oMm1#+hYUK5yAr{+?gaA5OjZYoYGe6r}*@C@%l}Bwb87kbLJ4y=i3#jU&+U
z53|DWeP+92nD$`2FYMHu1V#s)vj^|lxnxpR!rSmP&C{vwt<)u0K9%(CF~h&r7gV>%
zXYGovG$R9@e=}Z%iOdOazK-pu89yTyMg%(Z-4&E~W0q$3@2NYKB=NZ7fsS^Z_%{FT
z8R2`JxI2DLmsL;~Vfk!n;x{byCI`rx-8{0xVXF!mqk|r=Z<3#0vPEC#;bY9zIfM^5
z6NS-1uZwS=PWPxgC3w_Fm-CdpFx;gJbj~<9GR}nAd1g|wOJ1#7S2AOC(0!$HC8Tkt
zBwy88A6X@c6lPEsU^#QsRr&6WGC9Wa$G;+C#@UhtbhZ_BW>_A2ue@hZjn5AGOYsDt
zbK{my#LYpa^Fwz|ge<D+{J{a8iHnCq!tZ<Tk9(8byKb`Zk@6i|KIoi3n1wuw+^@((
zs5hvu_i5oS!04dokBLQ^U_R~Att3(ddlfG9lOxcvGiMocx>d^Pue~&-_(FG00_Z${
zrpQf5Zhmp~)#Af#34M|?^Vsr1_vM}GGu76wIpD2U*j>lfc)S4UGzu2+C<f<?sr$@I
z7p6=XI0Bu;smyEXKQn394t>_h3?S=D0G;QfSDkyFnXP-g{Lm7pcg%KX4wldJ;0ku(
z9XrguZuT|`Z8N!A0CckThaE2^kz#HrUFpJ0@I^WT9dku#!DYA3M#PZ-I`mG)e>`^A
z<{-|@H&{Nps~?}*Nyk2Zd8*6xrfce+0-(d(tZDYpBUq~;R`6Dx(gf8J>eSscno>0C
z=SZ^*e7i+7Rsy4g{=G?YN%KS&&Eb2o=Wm=3d7%258KZ+<Us{*Q(dKM))cBPr!na*o
zD_Uk@Ir}~7HTN%&(>k!jwBTvz_2W@M=LIbdv*y@J?=}w2mNVD6qjiDKbE5~#UA{`n
zL5(s$4QOeYn1K%I(v^k32Q1&z%a|ygOcn8M`3lQtUeGx`d`2{vC3r8_#}M4#D2xsh
z>UYMbB5LL{S)RaPr?YD3RDJ5*F*@jRcRBlyy0PAzfH<;1NB!dRW%i}sH^_Y;i!<2r
zLH{l+z|2!QsW-P{I=O(2`MuWy8R$49mAEJbx#uB$g<y2h`JCGr6JTvzKd<yYG)rCh
z;FJc?S;@^Xf1UnT3UO$F&iTu>%PBXq+vpi2Q~JH--_?DA<=k*PvG7g$R~8=wa>pQd
zTS^p02R#orX0m(3Hy$`=soMrxvMWAy$LOHP-SgC>`iaWfF?*R26Q&H0?Rbn1dc2Z(
z`F@M;^-glERY+hSVW6W<W6KBaD8Bsa!F#+zW8zCX{i;D-E*YbPKCipDI8vQ%Z^#zB
zdw%<28{^q1j1Ib<*DnQ98d4vaTsTMfF?iyGvo1ylowH%oWrtmgGU_}TIQBQsEVgiB
zbkOx=wYA&fgk{Yudt6UQ99I3+H3iFAIcEJMF8mjFK>Hu3c(E<F5`fMb+UKd;;yRmF
z*lV1N?%y>x20AA=J^4?vh8;MaCbcwxli}qAI=t=HPJ)R7%81i73CpKlT*YquJKo?>
z-fHmU(vh?Tj1GF-ze?LOF>M(XKpX<l>8W6iNeZ8xLHZKL=%D8h`o5;o30OXvi(-j7
z#Dl^}U)dNPbUvYW*Zgv&%a0(ABhdN$ulf5v9Y-C+kp(*Ynx}1<xY%Y9hdPceA9P<|
zGag-Crtz>w?q96~I_UeyqA)t>aSxxa9E>XsiS2ji?Oq!$a@GYpJD$?at32gDCOMaE
zlz3+%k{RfnK2U$LJ@dzXi{WoNFJ}FlTE?*DjP6Tm$$gI3<jOK~|8o@3sl1Uk6;WrY
zggClDXG-3MwcoAKWoxm$#MV;fL}sAVKSRrJ6&rImd-iNHy-Fc>%P1_L?~S5QQ&NUg
zSuGA<toXxQ9fi?B&u8@ck1^1Bt}C=GX{dkkib3L&%lrefIE)TA>O4HtKU6z-tu}J7
zri{z$N{o>sMu!#Uyb+n&^;kyPduc-f@1jKHb;s!NqMUgCigK^`4C7I24#OJ<b;T(d
z9R`%sYdf2-dwZoYlBd(7*26xu45Pz_a&$k0pYHenF6^}R`Ev2b$)Gxn&K8uDY-Gu7
zzNk$txu@}^RY5WsYdz@s6F3{4^wxXPGt|?g%PS^(HxXk!=<nS$R&FUhX6pWqrE<Ni
zC-xmBV06&+SVx_@@2lRQF`B_pet)+As4zx{3zg4c?6>A<S<Ahe+GqOg=@`9jF*@k;
zRZ9ck+utVe3NOhge-vBo4wuE~p!=$x6JSaV&a}7lG?yA>(%MHI!M1O3p!yQ=*FF9H
z0gF&#DCPX*L`t0m#(L2E^WE#=+={JcpNbB=^Y6T)>O6z79`v}^AMNzNNqo$yMe|Cl
z{W<;17K{#hKL6{qQ0?{X7*1NQJb1R|j0qW|gI=fmwqLBv8stk=|9tOAGP%eh0i%Qd
z9@o9`G5K1}DVIpOu6wK>@*Wa_&hIrQW>!5nX5{y7TZ|5R9%?fl?dGu!S3-X8mc{6x
z=OOpIOK&PiiV9;r{TO~2y%wi_#x@Vp^GA5Lt<u(0Vl7ItE7<87`8yft{1YI0D7nfU
z(@}FtVl)ZhC1P~;qt?Z0E3P|f+#ut+zuW_wQ!j{E#|yo_nikrJ3gy;g*cRJ5hHlqZ
z7hud8y)H6ooT}VkG~7+5dBFQHs?t0Pqr-yg3;jJ8tAieQoaIW+?nKh?rJrG32WChe
z#u)2CJLvDrIE)T@{xr8ry_}c$P{kx<y`doc>n8={xT78P{}4$)$FbaRsLQK+Mz%S-
zXCNqVlmK+l|M$cJoq~7ntle&tuaNUz$}nu5CSGOJ)QuAPfc!6s1au^}zYf1L<opTw
z-xdMr=oOAA-tYT(2l+n{4(On-(^7_D`TVpeh`o36&qeAX0iB}Qm$g=>R}DAw0XoqN
zyNjOFcW(aQ3I}x7Y~(cW<-LE0)I<3M%Ln~GL=w=kJjA3$5OeQAawY(sg5Ex2TIu;v
z#K8d_LCZ7lS0XenZ{{-y%V(W_T-WDt2@~RwfDZaP8v*E`|EGxqIt?uxoNq2)*<7cT
z0a!jyO!d1$3W<A>@gf18X&d@42NJ2rZsuIm*BA~;CIFq0mA*Hh|I$}l9{5Jl2y0Zw
z0Ue`+$h+)EtFsY@LV@K&NRO4%-d81yI3%F+R#`%Avgut7;t+sNc8W?@SRSh!^8ZsD
z&?&s0cUF0k=!`g&epo)5mAZw=dh^>i*B8)1uXh5_L9cfl(D6K1x#V78c^2u5@)4HL
z*cPGNze>LABMu4ZgsO)e&Rrh+j5q|S!z;aw-p+U)ad1E<K~?Zlc#fJL;!yfv`8+%Q
z$8y@saRqTmKqut+&S$2X-2#Y106M?*Sa1ByAlV}h4(NRQahFjgN2?rhC?8<?pwAOX
zK<DgFrVUdm=~AQ~0?@gtd)%>kRc<HZ;DC<Yo*%J6SB#D$4y6~C&$k3!-&l`_yAX#2
zbkNT|AOM{w4G&rcZMjU4^LZT58Su*5HWh1n3vnntuzU<(O3UYtf3HCt63{_EKY;*r
z*7@Jf$h~S~MC!o-ok<Syiuy-Z3W!7LhUGK)nQc#sVV)l1kbsW%dW7eN9S=$nhX8b9
zue}P9`xE~Uad1GVNJ_8sScKI!#G!P-@)25VPL3FC+nk3apwpEyq*GgEaSEx20CX%u
z_(J+L2C@+c2Xr`xj539SH#X-X<vlDP{jk#WFUCCPk$Ol#r-#Q?SSp@@iZ}$ILupBF
zeD|`63vqBjCqVW5gtGSj4#c5!!t!zaVo6&WwI+%<B%rgrvV|JCz_a=M76Q<@<?=||
zvwrL5^O|r#hc<d=P`AdwN2D)G2P~h&^)t-Z)NWls91_s!b9tY?<SBO#aR@-iP1<pw
zwz%gQ;^2VJKL#%2A*SOlh(l?I<<m}_f2i-*?TR=gpmQv^N_pm=N)qA_fDT)Te17|5
z)6M4*;ebvw?*;yEdgqmpdMItMd_FaNX5>FK^AK@JKnHytk^ppK6*V7UbE1Ea)Pn;$
zJHzkw%>5I$MI1^iET7R69L$sU-ainB1ax-bEMAjL){+s20CZY8bewhkm;T$Iflj*T
zMQtW?oe88K$~#y-)>)IK1xM<q5r+hH+zUNwJcq^e5r+VDR>T>^9B)_IAr21ce98}~
zVq8%1K^#g8ET1+<4U?*h)>nu_0y-(*L#4uhT*yTn0?@fkk!t8uSXxFL9MG}3%;t7A
zcpnGiP?}-+L>_v0EkrBezx^5L#En_Ewgo?)MCu^`o$$b43T9mw%@79%bOt+F-=CD1
zus|G26D*&mf&^!-dYM?nApxC8mxHvGROQ=<LjXE*Y%-I9bj72Hg9AElN3Yz-yU5Fj
zIFv?MK3guHlnlQ2I~Z|DK<CC0y$cOiqTYx@06O!uXWPHWT>gtVIG}^~$L|RY$oTL3
zX#*^ueH^?m#9q7nLFyp^9rSY)2|#DZbvniE7a#0I>cIh>5^}$gQ6LiqaVYh$e8lK-
zto-***&_}K=rk@T#nDA_enlJt(6J6FF|=Q92|yei&^d9h%k})yqannhyoKe{78X<!
z;>xnQuabbyryi>!cYg&xq#gp$vCTUfC&zf_BI4kH&J)GSg)-}`tB6B+1Iwq*gzIV0
zfaq?-Apsp0nMCW3-*QI~hX8cY&&$ODot2LXw<9>Sb|Cdo>R|a;?9G?LS*ood4hiV6
zpFB3>*+jp&ZxDb^{5?%N<(~e{dT>CeM#%B;iOxf<NMDrKuzbGl>C152dt4cDNI<9U
zQji7dRa-ma5P%MkzzO|U{b&`$!2zA9j}0n6+}1X)i&9>}^1*rFZ3B0R6e9JIfKKvU
zm5}}IB@M(O0G*N^7ZH~Y;mzv+IG~f_|Gb?4<xDYB52Y5CkLc_dnVfo8al|139rZVZ
zJL~D!wjd4x=%mt%bSU+)A4eP<&_O>Jo$?ZvkJBy7Nb9zHPmp>@KqvNXMM7=+-OcYi
z1fXNQwah5R((J$Mhd?K#hov;aQZBjMS&#Ra%$68R4YqvH_xtVB*j3o5w^aynvVjhx
z-H((n#6EAtaRfRtiKNECXItbEM;7Q9GFqQn(|4*x9O?^LK6l4O$Q~ktN{CYjbX3-#
zJTi>5_=-4DK<Cai3A|t&<u2kF10AjXQQ}ohtwo4~13Lb=ahvwjclIF8Xf-V782R^s
z4g0gh5T^j>xYpA-j4ONpMI3jagT5~gkI_NjziPiK_Dg}jJs-J0ib}?o585f%c9-#X
zc9kjOkb#a*R%unVul+3I5P=T*{xLkzS%?zl)eKRqL+YVEhvhRsz0Ujj-l5I+dXRz6
zRTs<bso*2?NIgWLbMvig8|h=2JmTPi&dVRRK4zYNn+~-KmXB)*tC{|K@;Xuv8R)d{
zJlwdEQm%tIM4)p{?(e6tz)#_bg9kd<b29DE4zM0W9BL&jpTXsGg93Jkb|MZL=&)op
z<t^y9$RG|8=-367IMcGRb|4NO=yXcoOEatH{BQqx2Fu4lu43`LXX*{49x~8D-!Do8
zI&a*}ozEmr5s`ZEK!;W(r{_-V``d^^t$^jDDLtcDo}2dH{sVN5`}fZcvVCqw>LCK1
z9YMF(W?2SLA`Twtpx>87Er;cE>B&OF=~FK&kb1~KN1YVXV%3~6ia11|qxSsPWsYI|
zG~(caPR{xXs>^^>I^s~D!t&uyHuDpx*8PS!WT2B#O|YHkAxI+*5$HJZ7yI$_ZnH)l
zJkTNHPG}ga8F3&EwG5U|{P&P&t_2cb5r+(P+*lX<lD=xtAr2Afn4c7;;e5r%k2rXs
zLwhz!BIo#?a>SvQ!t$YZDps4ws`Mca8R+;drF`C&r(=aUM4;1BUUaT_VZSrt;DOFx
z@=6vtSL7DrP@ll^Ns41>iLlt2jW}eWBjvQ`p*Y{eKZrvFI#a<u4=rP~;t>ZAba489
zXQWo1ryvfs1eOoo-J884Qk|RoDjDclrlm^=6KS_2^$>v$`n^<mp!2Qu!b_GXcQuiE
zsE=X!1W29ezI@{2U&J8;ofCms>{0PM3J`|~bXqQKP|Uv2Zyqo3K!^XU!?WfH`py5x
zQHx>u_>hz(ZhYd2M*1QHoe#f%K0Z0Q;fpv#pz}WQslv89{Z|kN4|LG~*P|A}@-ci@
zurQ=+viZL@GSK<+hF}q-P}YR>MFcuQS5t4EJ*V{=aqvK=WSOQr*%t4EIMhN|K8%Vq
zjXravOvE7roeSU9CIX#VA`piNbQmHpJ}DQ^`i(evpkv*1Oy}Huo+RQ>3t;&ipPy7Z
zbl~^qzCi{$gy4OD51AhcM(QB~ov~31$-|eeH;+4bptGKF<okK0<gG|O)O=Vz8+7!`
z+j%DUAPyPm2za(CoPL*g4RMG-r|RCeZQEaD{dax{bbO{%UaaiCFN@SeeFVz~zmwL0
zsetwn;*fz(y|LHT!|R$Yh(iQAgnNG@?^ZlMhd6kk^KzSQMQL*C0^(2~!t(i4GtA~N
zs_2b4WT5kG?sBoHj!_!o5P^<tzo5%vzgRNj;DL^C%JSjEP14U0hnfe==g@wg6u!=q
zGQ=SRoiv@>p_Znf9T0~Ibo3+tDQ%N;zl=C|priAIX5shIckGBm&4uMNE?x3_$>$S2
z;*fz(Szpk3{<q4T*ZGM+M}t@N*?h{sQluU{&@rqI>Y-gcxOtt8`T&;Cn>5`#!Hc<!
zNIhhr)8swwNf#{q32}%($4Vy0xyruP0&(y_Cx*GJBvoP0=JAx81Ix!xCQ~)HOI{GE
zhYWODM=hV1TMc(34iV_QcC=BucQ0<!!2_Ko!=QcE<-Rzi9%?o$9~|+%gl1^r=JhBt
z(9x~r$X1Iyv3Xuc1Uj65Q$tLZ{QmoX0d%I1v~qlUlp?X2PZlhn<Dw34CH{mQMjSHG
z={mgoOIg3r=6NO&=%Akmf(JU$mm<yCygNQ1eNi)E`7AMnd3@r~2|ye&&_Ta<n+S9=
z#Zzt?#)h9q>cIn@8$=77jkCe#?{U-&SU!*Km?M49exV@skbzFgbAq|m<L*|(Ap)J0
z<itviG>H<#!2_LFguMKKtG@GyLrsU}Q!tPz`Lg25D&mlVj?qRu-?Lw`Y=}byI<I$+
z^hLEBK1Lio&|$PX#mV%Fe*<x-_hI>DUE8Byw;{`lIAow>^KOM(pV7V^afm>NpHOdm
zXG@9_;^2W!X}&gL?%?zY;!y9w^08^|f6rs;5{5Wrpu>CkbMuZz?k5q42y|Y?->8iX
zd+Uohc%YM?)@j5Nw&lO;^J%brh!p>seNR=Gk$T8Lhh?g}hJ#Uc^Lj54=zQwUOFhlw
zc^at)4|MwU^iOHgCpRJvl?2PjeT%d}sBqC7;*fz3`uR~rpo4y{8Xo9~yl0XxbIX`S
z`l8;2<)dx)ciyFIe)Bn0WT4X@t34n7eQNVMHWBD->rQ$sdV6#k=?f2Z%v29Lm2V+z
z9(SmzuzcbN3jT0eY92u9Ap@OVjYqc^>-o_j4iV^h?q}oBI4{Y9IC!A*&4T=^=}9^X
zaj17-`Dl3L634&1)JGgL(4m~(_u#cp`sVdIBG3^Cj{B+CVz#;7@jxfH?%ZyL{UK{e
zU(^&>KF5w3-ZeP&$`EnLKqqb~?eOJ<t@emR1Ul&FOyYqK`gw!YWLQ3ZkC~pWp5$>s
z`XU1zPeavfl>x2dh(iQA`UM_4&g}E~Z+!ush@#LORu|9B-({#tuzZ#hOyinN$jV4x
zWS}#B>8&hn&o(>6Ap)IO*M^TgiMajW`7_YrQ`0Q8ebYLF)I&{#<#WM9+NRd-69eLq
zfsT6Sw_xL-XaDU#K<A7*`H*Zs(_5q-JkWXYk>;RO!$Bs*p(eoc(dO&#>hC3Qeor9-
z9i{gaF**C1K%^cb&~g8>VlpekTZuS$pp!hLNOjHeJc2mX+pv7h-Zd1Ita8R84jJeq
zI*Q4rbmhe%4iV_=u1^YTmsDs&96ZpWz47AGn5Ei2#G%H+^5NPk+*(Ze{NMdQKqtfE
zdu~pb&E`BL0-fw}Zw7X}mMhX19_W-GxF2%T{ov;BMASG~KDp6Ps1c0Lo4-4dfesD(
zcx#V}{pNiRM4&VMH-eo~XZK<=AE47(ApLnDYJPLPsIkC&`g>yo3&SIkddNU$#EdWK
zdSo9Jafm=CJH4mQs#kjRxQqunTXN_)9kzS@cYXC1ET0Ek<A!T4)XN}!k%7)?$wRih
ze%}GaAp#xBOb1IgJ^fR}!2=!kU3ORV`5%oV4mAdrkL2};tlY@;_lQFVI{coMy!!1G
zo8JqFK<73oJpX~@U16jiJkYUb-_qYTI@}_8j(5x0zw1A!(Xf1o-$t4ycE*Gt4jJe?
zNEZ~yFg9~R93s#m%b#j}-u!_9aqvK=R4{Uv%dfyG#GyvP^4V|I&`u3?az-37&@pQE
zI2Qly?Ontn0-ZvZSC?rS#|emo2Rd;DqBoe%>~2IHY9uV5FR?%5aBZ*gh(iWCdxq9V
zOOMcpBMuShoLf#L(;YbCjW~Fq<6QIe5kKosI>ezy!19SMa~VrB-?fT3WS|qElw)yy
zqfr!bh(PB`#bmL|;nH)6g9kb{Uo)lqluw!<4mBK>&vN$f+~M|PjEF-9I{eoyt5mOh
zMIa6l=ya|ZC~o<t^$v0HK!?o7EL_IEytz)PH(~iKeLT9F*O_Ct;{d*@_DusH8R&3c
zd~#{!_jz~3Ap)HV{%k|j{A-hlg9kb{iufD+9@OU`4mAvx4~=Jcpla`xKExpdonO)G
z+{2b#LWn~II;B1#gJ(}ENFoj%=-f4NO31n*>xwwkP*^_wMNj`Qz7xwt95T?6zjbPG
zj^#x?;t+w(iFNl*r9UDGh=T_@Y<GUn9$0soK^*E0SUv|86t?;#$y08zKl(d)U`T<C
z(Lq1Yp|(^m>P?Yy7vh8f9ahQ4ovnDqy!uCpT^w6KNa|vA(EnSvKJw-B>1g5_;xGdp
zkzbSihDOt~pJH2o=kE-!X$irWGdiE&QJQ@xwq$NaoCKh=nx)2CCCBNCI0T@>@$&t%
zzjoY`O|@dqzPQwMVT=y?{c#Rgl&2(<ntW!X#Aw!(M_d<!vE_qyX0{)-c6oHyI`vdO
z?U#;<-a3p9dfbhT>-I5zD!+(0AwVZrcE7Ug9p!n%(EvK;q!$%tZBLiil)^ivo?OhM
z0XofVlaGJ6yirEpQ&Sg&EoXE-QRg<a+$1F25GMraFyJGuWd!IpAn)_l06HHRe3uHI
zi3(p0^Q+rs>*h*>(Lui#Pi)8=FK>U+`qrgYPT!%kM@Iv(<%4$e6Bm|SOH7mOWkyVx
zGCa1|VRX>%oqSWgt?HUvAHQR*LIU#$16>(L2fZ#brzGpU$_pNa{kg3lM2`L)g3&?m
zKWFutb@_j0vwvRuCudGznbXDSpzHBUnKV`x_5P-G(5=Q^^n?Nqqr;4P{~))Lvgw)A
zw76sHIge%j)=zO_bkOrz<kciT>ZTRji5F*%lPQ(rT>-FhADo(}rtI73RcRl$|9NOi
zvJ9hx&ga&@lNmC#1LuCHc-c=aUpW$j(LwjM{etQFf1f4BLZ#E3#T*1*YG8EG<Iek-
z@nIF~{cmSNKMZ?q{riC#ql2!;?M4FeN8k8QCXuO2CXFBUTKuu)jCM4;JbnpO(Dif)
z?;7e-&svPa=%C-nn&7ZutEGD7v>4^yC#NLu-?kVXbUwS|2Wn?)YemEs9Tj?BhXhGr
zbkKd(YW|*2t&L#h>-|1^YcJVu#t&OQ=z97aFY`ZdRCwkRa7?w~6f>m^ql2!e!HVx)
zl)bm)V|%ii|3cAYcZ?1?XGy0%1^n<{bt{@!IlHQAOI?hP9BRFvoaJ_M6uBfa+LZR%
zynWmT>$s!$=kdXM9^WgeS_jTH8LHoZ?db>{ui}dmfg^8%q}4+e==>h+a>qLE==C1#
zlrXqxEC2mb4)u6^?}fiqjQOC)>lnRJPqZ{=RE*tSzwyU45@d`HIv=%p(ftzLo!ccj
zs=p_x;eV1aI_UQlFTQbT4>nWs*3FSn)C_X&4#DW4^Ev)jP0L6nsj+9j&u8jiu0ms=
zgMQDfFh&QxzG`H&<qJFOEUF*z>`6-^IL-KCTc_y0Og|sH_15@&R*C$%%Z;|qV`PjD
zx*p@vKU3?$TV5kh2+(<D<G;tF#b*U^bb-$IW~R_L{yNi$!wGcu$&&U}T1k{44uyy<
zXLLR^8o>u!@87CGoNS=;;6Bgr-Rn8;5yuhe^td_xYc?eKw%!*R8#<mZC5zEPuT%7U
zia9Yl=zZfrnw7bg+nJmA>}iDqS~uppd|){n`#n4@t{OkMP2!TNNy_&j63`JlWKux0
z^Qx=$Y?YZ=XKS1-MhD$j{Ldw!9g~Eg&-DGPud-d$5(YYFBuMGyq;o#U`Xl;YYmyF*
zUdNUXx}HIfZ(KhF&Di2}{F!ri)kb6k9l<1--OhT}A$X(f8OLH?$=YIc(EE>a{`d9e
z-QwaYm!%}P?K%@Ii_t-^FSAuE-jJTYS6}M%LuDqePg1X8%Ljd)@K7j3;p27^8F9LR
zj#r5BnPJ|{aQ7<?IZ*<ioC`2I=zNL|{2ypk5mKi^Xuk3?*6I;4I_P}J@_NxxXIWJc
zM+4}%W>K5Iye>4+3SYUk?t1hDGtfc5m%Pgx+jybpGx~kv2|$OGc(LIwS8;9m)BJaP
znZ*W-fsQg4lZeS~UvK1k0w>V95cTU1>9U?}uWyyl%L6&GU0$$!nD}gd#_<X%A@w8x
z9d#)x7nR6wggC}PXUsX_RLOE*AmVTWomYP>bZO`GPw9GaFy;m4w|9BM@`;rw9WUIl
zwtR77?`6;0V`>RN=Y&p*iIw#Uf4TX1Vspz^7h|9!CuwxvqBrK<%lw+)zfH!OoERPS
zdbi2Sdo(^z{}m@Eq+xb)PdCK_mX9RPvxB*k_sadrnO%)LoNkbSj<%U9$My9Oc>EJH
zw{#YR0s_#P+Yx3#cZmMyd`HKf`ZPgW97YFy-okJ-Kx<OQfab}IL%)QF6^y9vuzY?S
z?5(a$*3vGj+xqnInQ$30&>43bQAya(TGI8dXhI@ZuZ9S8vbjx-=8INL0?dnty12YF
z@j!?F_wAQGhtIgaksa=4Jo4)m)eV-<w{utIW`%0{POHUPNOE(!k%5kpXibodt_%aO
zvDuRS)jQvaKu6cD^%L&~U+yD`wwdkqo?LjK^RfBw?EYWFX&d396C#gYlc}z-e8Q(I
z2jfaZV*A~ByVr(`oXJ3EHmo*e`F7ifytprObd_{+M4&V5W*jgjz5FM#+To(zf@uaG
z=$OQxq2t&4@kb)tM0@$d&LdP8Z26$~F}$lF^NTY_#F72E4x@uUPgrD){gB}3K|b|H
z_=$s2h<OOm;byYDouZ;Xf?V&_06LBmM_p6yvGXXpy!CHi?c7BJbV^T3zU&#H9{I~m
z_lq}CPN(iFww%%V?08Buukw`tnB-itQR1D6$Pl0ta5jMV@z@@YJk?{J{n_R3G=R=F
z?Rn;tqR~0FCZFQHF4U>e0G%B?Cne=?{WHFCX>L%R;76!)hUGIbcH+3_ME1@e2CBmj
zx?^l17#;L{4vFx)H8I}Z6F%tKZk7INzb-}xJzgEjk#d?otSL+nZqM#L_PT``=&;bK
z&CLt39aPm(o3Y`x)@X5p<<nF|&3q=y6Bz7tR_&asPkj{7X(8V!8)QyvLh8{4Iw_3i
zB?;5d<EE1f*qGmYEihwr(Bt)>K~GxQNuU9#r|SwVpOxGU^VjKbrIg->W~mDwoJs&X
z!Mp-r?5=#DQjjRNP@H@cYK+lA_a)KtR_{xGAOXn-2XyXc$D9d#^~4{^XVejvk6Gv&
z{MPsv3zT)=9~Vpgu4Q9%(0%dVOj9I&J59Y$PWbR$^+A~<MhCsVrsQ2%``rp%wieq<
zY%NtzlmI&YGqn6xu`zeEXU`_ns}yq2T!!USEFUH5)j{knw!QIM>)7s_1sEN4J{P#d
z{O>L$Ev~ctqJP_?r{)fHR9w1j7>(P+s_KoOw9j%f;4wPeQNO1!KJQey6rvV&SVrr<
ziKIzJ2u25eon&$GyNSqUJsRRI1A3`Y+6iNfjv%U@^WP5+)yeT6J+06}4W!`~9L4Bd
zLOFlkQ>_y_pC{|_Kl@8F_+A3*zKZ_+Ju~H%uWD?9qpOodn0UYrK{CdD4E;Mu*T1(M
zdSiQn^t&&PcgJRBXJd4>q57KR@-A39Zuk3R_o<A77Scsn`$E_Al{L}Nz%EYe((G-W
zwM&oW$}rZ0UZ)i%2VMEO-45((7ccZ9G<|UgI;YPt@9xmil|vj^ptE{k)~){Y{C&h(
z#JI1b`!f4NoldnGxFY{fr9;Wy?`#=H2fg0W*V%{|9dtd8<$gn5UfnaY&DlKzL3yKi
zpo6|%M+NSyaYsd8NZb^B_o6<z;JrsI2N~$-yi_~3W17|`;6UpH-|I3}BG9SMSyrbn
zdG3px_u_#L`n;ElasNS&7y7+jWT1n7Zx<2hpr4zH^>~5q3;mvA>Lu9m^nad*4|M+L
zd8a^!x82%FFi}AHbeh!C08WM%4|GE9uKDFkmmfKlw;KGobR>;>5nDd!eM2v5gkqz~
z#K!;j^x)nD-e>ACI_U8-IR3@+P3Bk$Qcnm*2VIYge&?OKwE<(K9$kzMx*qg%?3sZM
z`g!Ip7qI1wt_S_x<|v@E8u|6-3Wu>i!$J9yn=}U2x)>ew{cIWmX@?x_cSPD9q!q}Y
zjknRj=%BB!(q8-{r`x!#fwEKPD@*u+5@C!E`n-<gY5HD)8*dZMiW8XsJ-J1*=zuL}
z^!yQTQxAHdBQ+@Pmq;<adq0+p(Ls+_o8h4s0wtLtL5>@Jw%30$5ivUG^PhJVj-uIf
z8IpEqvpyt!=XSQm=%91%Gh3p3duR1{++{%d_b+OS21W<{yXVU5)J5Zq`Lz4#8N6a_
zejLMLbkI3Vv8P;nsGvS9<htdX;5nh)qxRUw3q9^z{C=_ur}0LI9m?FNqW*2B4Cu%+
ztc;FS|GwzIY|UjhbXhM1ql4~?XXJUV?ZdVQYjnbEWr^f*U5pNTy#D8VB}NB55C7+T
zr5(1M(GE|2aapMQMPup0!I9+IG3x@LQ`~aNHu8u~=ARqMbc28U%N>Ev#$}<MqYt@i
zoV7~wE-y~eOJH=+>+3k3?tsaOJ2uGu*qj(0bUx=V+b*Zv$Zn%&kWA_KmVeh}i!EpL
z{F$lOz-iycd6Nt+uSL|Xv5_!3=z8{N4PEbI&aUF}YR~O-k~u~II@=yzs%S}-u&hpc
z=DXt|%~KrENt4>0Ji+ki9j*U-W85<F2*n0lKIp!L3^vB!h(G#<-1klbIuf!9{|?4o
z?d6&6lB_>5ltIAgpvNnh+&U;*>z@03Fi~f<?aoVKp!0G0Ad&Te`PN^gqZRi`9yrZd
zW6KA<A6g~l7p3)<=>E<bP+#&L%p_xU(BI#Ux3Zjzy^#|_Clil5z;L={6r+PaUZC$|
z#99wJ=Ub6`QqK+_`GK6*g<z})J%2ptHb&O9Ib#q<1L)|!nBY*Fdnb)JG(hL0P?NDt
zO_r1ngGocxXSc6)=dq1Dx~~Wwa~JjtV-cnGrxm+*u?&P@bkO5<I`i7Ts!8WV(Nyi9
zF_+CO2pApoJna27+x@FZkc;N`*}62BOj-$yjwtFn(x~{M&>`>4%C{+Q8&+4{co#7`
z=zOl{J}8mwYhritUARMD?0HoNbkO%Px&s|=pNP1bj2DNWf1oSxoi$341v;OubKVrH
zT(@ItVv^;Q5AR*H!Zv@<>uW1B<CvGu5>euz{<&u#ZZeZGI_R9`rybY&dR;}HuT_<H
zW=5wIfex#}l1RlVvCp&`tb3SeXLRsD$K~$p9*xV9wNgWWesF|n%2O?|<%6Ej|H^nc
z#t&vXD371F(N(x+-Gb3U=acZhMW8E|Zjh-$c(0d}cx4nu2VGD6z`#j$R@ZBjw3pJC
zZ3VRn7#&X3`tt4?wyE+m7|VCxGgz#c{UHIPgYIkVGaHTF3X<$SR>rz-i%+T<V|38<
zL^Azuv~Kr*sd0SA{RH0ebgcQH>zTN-HM{NX67$oz_C2kh6eC@X^`M=in%f16+_zRn
zN(Q^1*<UeW20AVGa?7$ZRtI|oaF^1Uig;Tru+2ksJ-GDYJ)*<y-=Az{(=EMgW)uZ<
zj@2&AEsi;!IeGeG{q)z1Yq~&ZVs4SiTj}J+>P6{|I_mBp%s|I+caZ!wce$@yWIsom
z%<V32IS0$9xwPq7_>{vc(~;`y&!uH{M`3i($H8Cwa&e#3#dZvAcNPC2`wDN1(Ls+_
z*5#)=4Jz_JksP<nE_m$s6$Uz|y@S*oEuJi{cd{ijkxX4i39x)lb>;S*)MUdwTMa+i
zBs~$G4Rl7P{G-FO^>s$LbfWg!l!@2^oy1m68#B3=8NYZ_`0^y1_=JJZ%k0-&c|M#Y
zM?b&08FNPN>!>*_9|beMwd;AV<DG`Jox9UZG_!$@mlM~xeT*+|Orm1<@oZI7TcGp&
z_2^GYhG@RdwFT9$t)_CqKxfj=fiEy6B>3MJZOS<PRKVz2SUwpILKAOGWUd^xFCYIU
zxaOJ-bnI01rN^9`Vz=z#Ie$(55w9)K86+CszNX@TsJ!T`>j?3bfH2S*d%f*x;N)(H
z7YhpJmPaQwM$KUP2$1H@_VxGn25hw#U5xNw%?3Kp*K72%#K#49E^(y?w{bbx0-g4i
zs<ZsLk>9g^H3;!Kz1$E6I$7+V3NlFw!6idAA56qMhDXo9^2yD+pJy1VXLRxNmEQ*r
z+mB`g9bVtLolAy1pJe~2X|A0c5VQq4SN3Yo?isovktjdsXf;rART${dIUMd;V967D
zVm=_sajax=^fWA=`9noB9|$zzt9Gg<nvH){X9JxB-;FO@y{rpy{Mg<U*ln`a7U&G>
zdra<0_;mlUj*zm{J8G;jMhAU7b#@7@XXzH%weMhu&OmP_4b>D|K4^!0>qo`tHlYo{
z5{@Q&CR(R1j1Cv-y!QjGNrl7-p~1-zdB&mNKG!%g_J#i5luA@;mZw{PT7NzAR(o~K
zQ3}R-(ARqd$s8;P6~9>gA(B2QCceogV|38<*kq<BJiegtk+QtfdnDFKHw5TB)KOca
z?GaVd(pCtwE<aVPi_t-UPw^ZYm%ec)B5426znbY%+%_E0Dbapuu=a}WZ-lbG^nR;T
z?`BM3^Cy$=`j!G~)MuHKZl$MmL*nZ&I_SRgMtdX}@)mEz9)ILL|Ng<{1dI;){7}+b
zwq+t-OZ0POW$T4}&NX9<4tm@Pm;TVvukmRal5FP6E*fmZVRX>zE6eVe4a?%#HBQ$f
zn&-)^e-@3g<&3VUINzD1M2;S{Wt8s@ZfzJNV|38@;67EAH3+yIBqiQb>0ExBPsHe;
z$4hENWOv`HU)6(|Qp<bMwE4O~$3kVyDwpB*0nJbfZ=Fb{6b_?<&Us6{>&yBd96Vbs
zNmW;pAM!7r!j?0-uS&L`r}G<BS=mhONS;nhpXz{4H`U9rn8RGluHvR@o9sYo0!9Zt
zUhjpsKY1p_b7xzOT;V<ot`=jU^Q4^baNyE|!29>q9ZHgTTseWxy4%O}pU-*Re!lpf
z_{-MSxyuNa^TZr0Q7!M%v$l;J|LX1v&t_wE(EI%2z6&-V@`N-so&@Hev5_(h!RVlK
z&OCSgVXtCf_0$JR6AiwOSq-3*$0}cFt>iCSp4F5+Z%#c#19Z4EXY~2Z51#5ZQP5==
z{-RfBh%IMyUk~s+Ll1KU4XS%`cDe30Wex#4G4KCybG+e^c(U{0>@wdqR}G-^<GyD~
z)z8Me)%>x20=p#VXn;-$50z;~Em`lj_;O5$xDHR90W6>CjE>Ro-mi<;YM(n0ZM57%
zfQ~V@(Z_<1(iUq6^Ee612Y+Y)o%P(|gi0%c#(_Nw%rj5;*=c|dzc@K6eQ)i_M+=5b
zDQWyNb^5S;;&g9s?<lI*JfoK$SiCHEJp||^e+>Vlt-5f(piIT_XoAaa4WP61`G6Q9
zGq;2OQ?}`LyJt}}7#;NSl;?NW^!A>^20QTl*@db1KeXs!%LjeD7;@CI_`A55c6ndr
z<k09L8xlqbef)~AGp~+1U;AP0&}WUz0J5$-MhCs#wSUZ&y#MLbv*IC_tsk%_Qx@oq
zt`_otnWAiyP<XtjT9)SH;z?}zpzDd(lvODaHq3bR*15`@?Ra|`(1}@zyzegiP(IP@
zc=7e2BR=jx=NZGDvJ|^?mpY!^ufKckOOgFQ?A=9FRqNyMak@JsrCS;#rMpuR3F+<z
z1q1}8Q$j*oQb0PSyE~=3q#NYDzk!qUpPaSVJKPRj-aGiNy+6C_IRHCBQtn&Ny-z4A
ztmyfD<iGA7%R}b_xgLIbW1~exm;(E7A)fL&=2==DlpRRt@>f=8c;i)@Mjh1h5o9CM
zUI07&h_A#85AvMnmOr}CbPsL_0PO5XV-a4A7_G2OQ1h>!=qX*xLFWTGU)N28KYiU;
zQq(ohhAeUgD(e7t+CDes!V6LTIiZhTol;SE^8(muJ=HAzsbMyTp~BaJVNGu?0I;(M
zn_Zx=GRy4l#9C6X7kYgy3(Thu^J%%UARSB+V#{fO`L$*pz|OOm*_wIxCntmB2UcsM
zR%KoQJ3Lg3j31v%b$e~Fr9CV4!WID78DmveSilHQP4{-V#makIbS(qS2l@TmMdPI1
zPcI!szPfcdn$-d9{9<4z4N@m!@+`;R{xju?=moH|Nfi1W8^6(m9X&}OpD)Z#0APnC
zWQ<!L0r?n(WW7c=STyBY8kmpTgk!LABZ<GE>Phu#lBrc4z>e;?{pm%Dx_jB&Ju{MD
z-e)g>ot$rB0pGh>;pK)>znyI$Z3_VG(4So|iC{AK)TK`P3~~zdTuTA-A>K3ShME1L
z94-+4OzZ_Javi`9<Twmo06UQ5FbF`|fxK>l9EX7z$`0iIncB~nw3g#g;NSNbvy#A^
zu^_%XP6pV493S8{zz*d20K@=0kmHlgN&xeL9G@f^$`0iD2IM#cMo@MjmpkM*15{9U
zAg2d%T!<ZUU_OxFn->7=Kz?s-1!V_vz97ee;e@gS=?pmz%&{0SAINbS$^mvDzoT~o
z*n#{$juT)9^82`BQD8oh-^Y~$?3fR@Y&Ix)FQtrx?p7a3)H(s|T-RLn)BV-h@-P)0
z-JcAv;)JpTxgJu6a3FnloiOGb408RoERA?A0?a49ct!!4)-5#_Pv9`jKo7AFU<Z9k
z;L(&{<?!G8*j@lTM4We@XM-GsO;Rd4Z*7zm1ORp*$N#y00nDd&?)00viuClq_rvP|
zb|A+Q@&edNFqFaHs>SvB_nx@`zz*a%OV`4{d~~y=2^WM20{*?PUI(xPIX;pXz|J!M
zq54eg^I1WwnjEE?XhZ>k9Zmbk2+lYPzqssP=KGU`gKHt^d?2^eHKwh5eGc*Z1(pyG
zQ7`wyRwz4=$BS6*+32ACh~cW;fU9a=)|?LjJEg%&a`=<m-!__vI8h0PUx@?kK>lt!
z48V>ojthwbS`f>>?=)Klp>u}x35*O&s#E7R{@3{cumkzss5rpRvs#6ky;Xvaf8S}s
zK-qy@e=2HAKhLRjWB%*(3P9%r+4&2<Chy5tiu7-}$3WSEbgn_<mBu}?3H>)c>QHtd
zr>8&UamVvA#o*uXl@J5$6h4ZqTo!*S`}aE|EBw&;K;G{S%zJ~FwCiB{uTu`NBhDBd
z1#`Hf=f7bJKl8g6{{xgANT26_HW8CM@Phx1>nIOp2XcAkBjoCa>7xz&>!1Ma<h}Sa
zuq~bv|F6@_2c0wI^tf$XpHfFsX2<%uGn37a$bAOb5n)5!7*dE%pMjTJq%rYSlLy$b
zUobR&fizg2gHHMN)J=a51z;y?+Qh^})(YQ83O#qdTF<%nIWV6M#`ch>LocjP5iQzt
zq#{i|1ME=8`!AmN|Ik+MCfUC-Ni~y)vIDsuzMxTknlKEDtk0`e-obP83J1y#<Z^d+
z_+oojALW^&AwBP*QpG&V3(Tjze`6l^8RpKv^(O{kXKmI0k8|vnq!;mI8j7vupgO?L
zgUi&8UX677hU4tQ+e79S9Dp5xd&!TH-(R5qTc1aHp!0!TURQp2vJPo_XE!3hoEc$b
z3zGqM%<YA9NzW<tSh$p|l(pJ$jG*j5F84f{k6J!3Dt0FdffhBp$Lmx8JFuNyTkrP_
z4VdI3Ps<H9t5>+8^MRb6S4q;(&Lx-KX|~!I?Y>6;$^_WKQ+!fLnQN^5XHKpA!t#B#
z5tJRs`*pRcSFu@*71$OLX~;Ki&MD$hb|B~LoB-zM9`SezSE6%lLdU5$48RUUhXp;A
zDf(IY!NQN{?`4czxqvz2kzh9!(ClQr$1WmLqbS$^0I&l&j<h(yP80ri2AZ8A$-m<l
z48V>bK^rTKt_9w|PAexcA0`!)$Q7ZFcJ(%^Xvt}=ZXW=4)~kMSk-75`{<}{r4zL4x
zpB4sS2l9S+D+e$i$ot_RpzJ_yUy%31jiBs6ZeQ4=sEmEsPq@~0c?&Nim*%MecKX;I
zo{x2s-Tv#WumkgXf=<!thj>x*uagO|(?tp=Y{f2K^si$Cu*35?k=O-&q5ofp3Sg(7
z)Zz0=*ufvfJTZy}N2BBwHef!mb%uvt!Fa^~ey1-JU<ZZK3rB^}I{x49^cex{DCl;a
zDZjD(MM=_mvlh;pO$D%n^pP##6pQ((HMi>Xk*`HtE3CkL{A+6VmsoxsR=vaYQoBqK
z$^_V%%yQl~V6;zSPzg+n-g@0+1hDg=IBj4fCF`4^tm0<)!I~Tuzz*bd#+7Hld?24Q
zW&-R$K0h@A*nxarNd>TzP2BcrhkE+czvIpd3oswZ-&4p0*g>ljOtAJ8<o<U&H3Ha)
zaDVO?)RAheACtL6k(eAp1!V{F{8?2;<NZN?jD@#Te3}`)71|CnFrToM8g=o^gY?%V
zGLMY)%Vq^ob|CLdr2c4a*&#)+<}~DE8dDel=>=s6^7wVgzxb!a+M2uliq{|0^XW4I
zfSn|Us#cn%J!ZajCUl%PqCD43z<hK_e`<e<kdb3>?Z8CyNsF%o*r~$sAo!ZSk@wrv
zY`;|5=FAIVCkG|D`YAJ`$)pudstirKi2#%x$mONjKOxAP0jqeIxFsj8Ws!>lWe0LS
zjOMMWbn>8U__scfGD7DJ`Tk*~osnf6HX@5_Ei>~wr7tT5P<9~KpE6>^c%g2F$$9&X
zUfuB@Jyrlai&VR&lO6cf`DA-ps%|0`Oi*?p=Zk%^<C>)TH{Jf~ct|u=rz8x(&Zgp2
zBaLfsUrm{P^b>J=xmgD2oFRP(_v@rlm{bXwX|EXr^wg4)q3obSd~a3e{-Nt5964Th
z@d)=vTACVYJCN(ovA&F!x|kD&wOmZB!@<~q5tP#dIbRbey|Zvx7~a!YUoa2Ss5htp
zcHSnevj@5aPO^1x6W|DvwXM(tbEXv*KW@aG+U8s47o?j#yvu~Lg9hQe9{YRi(*MS5
zD`Ek5%gN@n0Ll)ekNqD5lWD=I7h{AM<)v;aLRL_AAom+I7Eh>@HDHkEXayN50_mv)
zpzJ_S&!(6($)JNw`M=}WH63)$kmG$73GX%+;p};NkG=Y|<reaH1<DTO^ytmL+N65N
z9L2wtZSXdfLo5?uM_KSC{#Q?2L3cEV<2M>jjz$1Gtb=@7p;dz!`@iE?L~O~4sQ`9z
z+4(HRVhLKx4~N}UV~fOAXrXh4^g+v%s6Bm7(NSUHfL4S>VU`K71NnOsMgTjx<Slt6
z+Gti2+Fu103Tz{(0CsTMOgVGD7V=i;?8gi34%DpB0P~3?E;e)DAjMo~>ZVy@KfK5U
z*lA5l!#O%xqB%y>n8qW`jxqw+fqZ|A3SbBF{CR~Mm`^-ENBqI$`@N;J<mII*rtVCD
zot?$PQ}Uk#8~L=S{K*WCibeoCB7=eomS*TuHy5t_82f@9R8V%XA@<LeY>}~Ny|1|c
zb<_cNDt0F)>=aB9(K}4ibfU%UKS0@mJT9Mb=Oep0rr1hfw)kbadoV)VfgFE6VqE*@
zrJr5pzm5}>(*xPD;oJPFWDO@@&|1uO_G~K!+T{g#p5Wp=ml9tbUNaN$NQ>RSInD&-
z^g!;%y67ae+Y<gNY`{lqJ>sTD?oa_+pIP7>@q4!>d1Z+<XmO3@VhaFvoC6kw#qRQh
zO-;|oam0BktpIjry+32}atli`Ag%DQXeabALD_+H=H&l<SFh6^EVU>p;TCrG_Lvfw
z&$lS0K>LQ(3e(KUu^(ag&gD>cAkUxW?9CrXo6h!4Se6@RwGm}ML)n46zj_w(7ojpC
zZ&i}$`}=6_^;#<^JCNH~tyDC!MfFA@AMPRFDUzNvv>nLvs2;ikT0<KN2i7UUBNqRZ
za{(x)2eKpR{D^n()kIo?jXC?pZc!8plpV<J)N>?M(+*#!@!xiOO#$6<CxX}?b{Evi
zdwo^EIA+RW8||X!gVqOfzltN8clYJ{^7F0HK-<&bbc)GP&KKmk)^}E%%x%UdegF0w
zF;I3O$Cq%sDYBw&w4fb+5r44PV1YFXWe0LSe4d^bAA>aU=5Jhz@~r}vDYV-K<Z>^#
zhjAokK<mh7>MP$6leYQ*<@7*q@6naKtlR=6lx-#Rx%88@)bdbvAbs?eTUo@ABeeO7
z)>~ivye;_*We0LSd}rjx#uZZV?%)2|3(5}UxO0fu@$XOOzxQ!DeKL<-GgXGx8FG7X
zMid;kNjyW~IsD>1w$XM9Z3l9>WA*d+%n&s@PMKwxHNG=Yje&B$AUj;yuj$4}V?+@{
z=8t;Qm`a?W>_E<!^26bn&x~fzE0yaBD!G&pXgiS8!~2)RFi>m)?%#1x9m?r}Tn~4C
z%wFK?^sb)fPtE*T@}(n&vIBWN_{B=n5Q~@0&xXO4K=`sU2?ojz<nI$*(>m-2HV2hI
z>m}IfIgG-DcDsPwPDj2}CD!-`s0nnYrDFe{WrKFUAbpH81>@OW{JiFvHv~k8uimUc
zxqpUS?iQ%qG=HsXH#y#6mcD~QHi5PSd0d9P{;Gp=dLYloAg{l?0CwtCZ`TF_r0nWe
z^_vWAw<QGtcDiCNyii#Klz3Dta#EW1iLakRcN~PAFUafeI)EL>>uxWA9mwZ90suQD
zuq@oesrAVu`X0E=>S-R=<iLC~Zoa`*B+!-cW6kf1NJ>7h1K5GQPvQlzBQ<*CHM6`i
z*v&PJ)IKl2D*&(~%RrOD^%<_@YkPe6^FODG*JQwaAfFG`0qk5Y;xYN8W*fhGGW(Ui
zg`3_BU?&+F0qgm6ZP3=uA7fRTlRyE0oh7~EmvTdO#k^PF&=aLYrmsnX`A~0Z(P}81
z9ta^F9&huVCDsA#=-YeQSk9&1VMmwf;9wR-cmeEe)CEtocQf-X!`e~0R|{1N0PH~C
zKfERZ=JSkat1#YF9gbAp_I(#p$#EUP&Uknjatk~Pp5ip(Jm#IpQ!gkxkjKHMPi_L!
zt5aj<)2{s-#$m4VP<9~qtKBb@w=P773ID8TQn+%waYF&v`NMQeSz>on>M_I;zsVI$
z)k_SWGvsmkyWS-=!VRm`*tI6go^^0e43r(n`Fd(Q?Y_wMASrqjJE+mfvZxMa2XcB)
z)Anc%vm%Z}oY(ARC#5Zj0d^jdX)oyggV$JWG(2X4etlmd0_G!%%WkCe#xICL=f%mS
zX2`b!fSoltM)MDc_`(U3Vu`T~7xYe0b|9UnzlJ6YXYCo&HY7X3G*BXPLfL_Ic6D4}
zHc_XL;CX#ajaEz3bo~UFkBjD{@4Tgtui@vdMMl@>(X9YGbfocJROaxq*0<XzH!U0|
zp8<AGIUKf3YhPp$&FY9uTxrs&L)n46E<iZ*j%A!8jIv)<YC(a;Fy@4^1L=$`_lv@2
zsi?x5u`aon!=(P25ISeb{ZC<1Ue6mtEXG_?!Y8KEyzRYEb|9w*7ZW>QGphBm+od;O
z@y5m?24H6|5S3+8<K;Gvzm&0AHe<kRC_9kz<+$bMfRXms^>g1&=9*4f029DYwpazR
z+viX8tdjnfxVCQa*96cxL;8r|f91H_mM{E1j?Rjb#&q5auoKjaHQT;BcHdFcyGAQ9
z)%F=+CxNW1@JsUY!|OtY8Ds;*By}h|kj^fK7|tjnWjp`&^HflFAoo8E!R$EK)KgE!
zk0|^vH1|DL@S$^t+`ir@ahddCb*>zvikr^kKhbK1vI99iL!X{2Oq+PW@<7+`l^n+)
z{{UqNa=G)6C+z3Ln+3<T)XVC`P`#9gvI99iam%Fe!InCKby6g9_rugaC{T7FuTNJ5
zTLs;+cJUVq=3n;G8MUwALFWuPUu*8w$nLNy_HVZhd`Fgo;tBwEsFMR*esc`y%v(Ja
z<Rm3zI|1xi35uy`#mI@qZzrSTId}>S0PGZS3(KY>mtqWXafQoB23NxX?5tBdVEC3<
z>!41UKe4j?@3*CJfjMKyxHKT>`#D!VD>d$l`Jx;HurqQ>@rEOA9mkn1hn$`N67e;Z
z9mxBT&Weo2?2^>W?^gXpu9%Em<)Q3Au0IlO`d()&&m!^}eA_CGn#pm1b_%%htMG0z
z&#!IM8hj^HXK{czi;1G@Jlw$_tkEN88l?siXF}P5+#hb+gl%q(ha=>q^u5qEMpbiy
zvIFU}rTI?ZlO#^AX=zhhefX=o0Km?RvOAb#;zg}63+kxQ_H;}bC_9kz1^K*t6dO8c
z$o&}P_aHF<J6icaHT++*Ii%k2$#dY!t*Ha-K;9?80oZ}OZ!?Mo%m?y5Kn%c6?`RH=
zC4ZtIU9WHATOz$Ab$}h&=i<#qf2?Ou_KqaH(Tc}#0CooOv;__KWfA|KCyZhO^Ep~E
z3y3uS`9?f2CxSp!ge(SN2l71-b$}hnagA^Qb|A;w8N~qR1NlBl48V?pV+xnpi=Ot~
zC@Kq50q$&dfSu1@if>f0-*LrKtVq17t)j*O*nzz7H;N9-#{mU>OQDr3N<o>KRfhwu
zDF$E%^7{gHfSoacPTmk=8{DOplF5SHk8L;rJCNTOjG_VafgIN;24DyBeKvJ~9mxCh
zH~>5I$#W!%!=v0Zt5);wflGm-sL=U99+%h4yp2}n8(J9DO<h)#KDH%8*?~L`q9;EV
zU8N@nsyZf8bTyXGz6RJiQG8K~$$Bx#OvkBFYX6gp7+_}=HtFn=+}&?6_9KrCJ;%~4
z3Uoe@^A+*NY?dHF<`>?hj@zzs&3H1v4tw|teJkhtkBp(&uM#_ZgI)vd<fs_6Af-o^
zls=#Fpv|HyB8IX9dEJy6-_z^pVfeLg(!$DMuj}(MGBBT8o)32Z{NEHSOK6xTEUV4S
z0e03nny_rt)fm&_2!4607_K`3?UXi1nYypMyQ#l6F68(q#0jvIU487A)ILyZHB&BZ
zF5tg@j0DVwpLXiJII^hcCjs?H?5~5Ra)2FO>1cT`5w7az;o_&5S*LnV06Xt8WZi#@
zrchNqRf`b(_F0V+$`0gyV-e>zHakLhPx&SG$cvb%ifcq*K6)i^1a25c*rW~L7oIP?
z!>I$<k$IYQe`NCIOmK@yPMK2A$_rq}Ny99~lgL#XE(_t$y|e0r0Km?PNZY59$7m~U
zzvZ76{O&y02*7+e_g(sZm=AwF^vHcKz|+sF1K7FN_}Cp=nIxKJ`EWk=+>+f3U`OrF
zzz0d`i=>Ly9(hSl=7Rvh&hD=`g0C=PC+zO@rH@6y<=61QeB>*Kzf(ITsv2{AO%O3T
z+^+-J(N(uU?nn(Cy<({>6%+2-_5#>BgL!6R=O)KEu2@NL_FI))0Ll*J{<;593%i}j
zUO=lN4lSm7m>CDk4&?F6<QGF5z9*LHs|~6?{bB}#Q8-}E0qCT|#d!F}x_X!hWM;Uc
zF#tOs6xI-l#T_3TtQ1-*A`IQs0d|TltqlUO5Qduklo<&q#YJ%db|A+Y7=;Dq19{#X
z1F!>mzN!we19`rR1F!>meK86H%%|1R(^vI#!REi?P7J`#VEF3XdsP~pfBP|YfE~#3
zX>kB{AjhX2eY}1A-yewAW&h8ALLN^c$4yO!vIDujpXY^QOlbZ<xEF4qCJZe7^cu<z
z<n+9zT24Wj#?Nvd-fcbBwG5{M*!e#*4*m~N02BZPKmkwy6aWQ40Z;%G00lq+PyiGF
z1wa8%02BZPKmkwy6aWQ40Z;%G00lq+PyiGF1wa8%02BZPKmkwy6aWQ40Z;%G00lq+
zPyiGF1wa8%02BZPKmkwy6aWQ40Z;%G00lq+PyiGF1wa8%02BZPKmkwy6aWQ40Z;%G
z00lq+PyiGF1wa8%02BZPKmkwy6aWQ40Z;%G00lq+PyiGF1wa8%02BZPKmkwy6aWQ4
z0Z;%G00lq+PyiGF1wa8%02BZPKmkwy6aWQ40Z;%G00lq+PyiGF1wa8%02BZPKmkwy
z6aWQ40Z;%G00lq+PyiGF1wa8%02BZPKmkwy6aWQ40Z;%G00lq+PyiGF1wa8%02BZP
zKmkwy6aWQ40Z;%G00lq+PyiGF1wa8%02BZPKmkwy6aWQ40Z;%G00lq+PyiGF1wa8%
z02BZPKmkwy6aWQ40Z;%G00lq+PyiGF1wa8%02BZPKmkwy6aWQ40Z;%G00lq+PyiGF
z1wa8%02BZPKmkwy6aWQ40Z;%G00lq+PyiGF1wa8%02BZPKmkwy6aWQ40Z;%G00lq+
zPyiGF1wa8%02BZPKmkwy6aWQ40Z;%G00lq+PyiGF1wa8%02BZPKmkwy6aWQ40Z;%G
z00lq+PyiGF1wa8%02BZPKmkwy6!`xxkODUe>oxBiy{Ov3i6PrX_T0AN(gRa$e>9Mo
zlgpuGwBaQ&9Zn<L;zYcvzFM>3Pq%yDkn~qR>Q(x870C^EjVG`lUl<=>ejGI_hYu@}
z`qaiLX?s#h9hj@Uiss=n8wVqEv+g&z?{HxnP4$FVaBXzvH}a&u1y$z~f-SkukBdTT
z(c-d`C<~dR!!>V3ESuE#;-m(#@2}YVxylNMn@fm;wt5A7yUY6=wki0}Y$#-Urrf=~
z$oSu?aZuS(s?Qg&3K9=!58BOs%DzS3Jx<~fdqA#(wUGZs8i3?A-}TB?XP%Q-^iEDi
zPw~bo)|$VNC{3%SiLnZn$ErP!Aiu>=;f;ENQgW*BC#i*V-;5VW&x4CgQimG3g*L;l
zo$oKqoUxeR(*#a1!Xe_isp62171F?Md>n3~`=GWGXcLJ_3-=6;Rxv*~fuadM!Z7d-
z&tskEi}Z*4JD(GIX6jh}4oSS$+qMbEN4S>?1T}_JcAq|ub%|PCzOd{G6sB&!MH~8w
zzTuwvl(SiGV9u=`)d?v$Rdo67j3>(Z7u)j8y*85HOE6nsT)JwH-gZvp8MQyHzH-3R
za`#sr|4IJDuaW3LD&aVckXtKduYa|-#qa!2gYOYC!fEW3ekuCh<KV&!+t`=Gfm9h`
zO3H^^d^QO^CHf-$m+d&UFj*ge2L5#JmwnNyITbg^=Z9xbLutgznt4&V7Uo8P+{O5@
z@0n?Nx=-Yk5YF2(+wk{Wvxgp~Qrxo}6{-?l=c)|`VUxGG-<40aJ*!bQ#zRJPiM>f;
z=X1+=rg%8^u2rI<;v4U}l3b24+tbkTG%+I*TDALTf17s6r19}n)3!_+RunQX4W(4X
zxnU)(Z_gTP@fB;2P@{Nm)pDJr5+7PT_0q%l5e({O|LoJn4BI<-S>^jqsD%C3ngY?F
z@-ew$8u}l8dNUqj^}rSGMZ7hS;kh&vLcb?XyiWvByLU7*RuqWbgmltu?S47s4w2CZ
zumzXCffK<HQ;&A=Arfpj67DgR{z%n@p8X+KMx|1?;co*!bt@Xv!^7etNr}*ShYYNg
zu*}ljn+lOaD|U_RhX53pEQ6f-n#UP73u({Gu;!wdv_~e@RrU<L`)tC|Zww3*hfO7C
zM%)x#g73}UA}F60QMM)v3erC1!TCGVR>N{JBUFl~x0W@AJ6!HlfNbm^@6DOl9R!oj
zQ{-mA{(am5cBpMeX?Rbqv016}zIG0~Hp%|XuM|z$Ur1&vlR-bd40&x$@CgAAJsGEq
z;Ebcq;C#KG058Qfa{YbpPENt!_Hp+&nij7;w%7R8P)AEr7?Y8`=7)3^Jm!T6^dD%^
z->+BXrzK`|Tf-@2alAv-Lr5p?ljo+pxm9deXmE+ZHB=cVVn;e8iL8;Ott0=wP^pc%
zX)>3(^zLjm<%;rrQ)Hh=JC9{o>N>J06tDMLMGS(6cIo)xZw%CyV}tkpXGhzMf>e(I
zD5{hw8`7g}sQ88z`uX{?Fab}=-q)60o-x%2Vmsl8P)Rx&p9IC;%vzdxD##vYx=Vx_
zG3A8s8zd~g|2?WFE@Gg`qG4WyC#{1Cn`O(&WMMOy_?uBc&mgzMZNZQdk^duZ0AT<<
zy$t*FILj|g*>g!U?yH;F4KB=HNVaLHOHx+-j;Is2xJ?xFy+J?7k<t5Iiv5VPGrF-d
z%HQ==AjkKV_39<(AvCa~U)3{+wK-QTeHfgrT2){2yH6PO|I_?~QD?<cKPDzA%;ibO
z0>9MFO95o1H%v4}jc--v^2S<AjDFiA+P`a&@O<2n<@h}?5u9mhmf{)YyQKc~3g4$4
z(|Fm4!(fo3;*CuA5mV#XG1v9-MSQYirl4{E(8yO?<bHX|q(JVxVq`()9igWU-UA!H
z_ag-!uZsD2)_oL`!|VdbXg(QfIm_H`sMhOL{kK8;_ta@ovn#c`JS;p390}CPiy!0>
z{P1d{nJ;}l>8;NItp7>jpM7;y<u4K3h6Hq4Sr&DcL>;ZuDQJ?i)D_YDHmG|Nbl&vb
zG`_>!Yv1;h5Yih35^V81k0uc;T%vg`UB=jbnmT1FTIcLluA`Zv7ZNCWS^P`CTtz7@
zf6eoW*6mNCx43JuMYkozE&7s?O`SIppHcl_LHn}!&0lFEij<NKad(Eh(I!;nu%K$9
zT@ROx@>>tdlY|A!Q<C1$GXLB>wQ|gyy_B2HxZWal6l=0gs)Hm_HnF1N(9dcUvavFi
zGUD@MlgZDl3a!Flc>c+%9(x$Bk!E_NY`bc$M!!{h$V4*vv!EJHnL4qDV<@JV1poAq
zu&c{TN>=2j^P8dmJ_j|a7Pn8!6kl$i=Zp9UKXorr`F6+dHRkRwvij&qK-B;JV1Q4~
z`X`Fq6I0iSX19yBzi6dOX;euIksno8ofIb*$t7Y?(qdn~x)rh?#_dVSEGs!mBrFqN
zPTUvnlG#@363vOAR7>Z}xi$^pv<sydBh~7gJ?Zw*9P~;3K=xeKYLCFlT?!+*!Sj45
zrlae~cz^h$*P66ZaI@2nMLbHg=41$Y^yZLgS{#qQn&bigzil(o-f^B2r>EMHK#JmR
z6oI`Rjg)P1^*dMYK3I~_NIOPY(FZ$hmaO(Y4_h*suwkO*o5!;b!DA7n%1hOnm_qGg
zqM+1t&u^-~-f|`g%QmTWxJ;=BchPC(prE9L{+v1tm5gORRBHXMh`MIZ<X+3n;&Y4~
zRu+rMTxKi8Cwi9a@^E6~_E>qR`F1(*n`?kyp=+?>sAk{nthO_*8dk`NQ!$-aA%@r)
z`x0A=-(EB9$rY1Vy&RJ|dONlg%&rfdBod<I79reEIP^IEx#?NnD6>%NAi<#-ET_ZC
zU|X2ZR1vR|_m6Oi{$b|TEkzMtp~~BR^e6r$>MP1d8e0t=f`SY=`T;5n!Y|oMNe`ln
zVCU4SanIqV>3MWBpH1~ktfWVzM=2e@Hgz-Bli?6z(-<yBbCp5D&%f?~Wp;-r=id^m
zxc6;djxBUI_t75ydjw}tFrbQIphleWGA_Nh#+UlcNy!ya^BLXP?Ci|^3r);tW~wh5
zYgYt2@HPl7iE}UQ?HTLuW)klhUvL@oTV%`Ca;lbyCZE|y|H(tykDP}kGUAhd`P1CL
z6O+V)-Nww#LlFL5{nMGT*&K@saoi+4){F4$jwal=aH$ecKEAYtAAADJ_K(!3!BHs!
z7{nP^Ug!H9C%gAek1gL!eZ7hwPIJF5Ct-hmm_Qi$@64+-MhU&06X)XzrF*f;g%zQ8
z=k<%(3C#uV_s`AawddcKMf%_-pk+L<NSSkdqSG{6L{LvrV6f+)$VfhzMqBeT#oJq2
z@tCG0$&R&b(M9a3!8S^|V$2I|IDCmulI7xGSvB;LDSX1`&#R{4D&e?_>m(@kX0NyA
zmZLl^cIgP=Ht0;7q`4G`jA+$p^lb6Q^7`hE?o~qnw2A)wgluHBO*atv7hm$)^k}5c
zk@dc7yb_H?1=Go*|M4=mf#$;yrt;UN@a~X=T(U!|Y2(2Ua0dkct<>qZp7V82LS}B{
zX18v+%ytr7RVS3=JjQRb%_Cswn`Pn@#@~uH%u=DWg{Uw6`0<6o=<s2u=4!eNub$*B
z8;8tM+0n=^E5DOYiqP%w8Ett(>7Of;`y+*PB#f+t2}-Af8*7S&eM(#@H=bpslu2*j
zVAH89Oa?J;vf^c2T?M-MkbDZx)JfV~J`F$a8)ekdd?5b)!_2c|H$k3)TY*70RyCNa
zbXs2IjM4?^N4GZNxDdx(Z$h1fJ;N03D<gd8Uk`43cUpa#R&q)co64`_dcJ&qxFFJ=
zlC&riA{F5XeNXS*+aWzEww$3s!X}@WClUDZR8WL207Z*oPEBz(A^)eS#9Nm{9BQd4
z!+7;EjpEI4t0_XaPhLwgd0L6XJ-e)DdTGPjdaATSi!2Ep!H8KgJq$w~EQK?4yH_!l
zoL__rXSR6z5)+h5>S((T*g~a(5t)5O`F0!V?r(EdDKXrVG+rrdW`vw*(9FLanW*Qu
z8*k(8pMO2i`joyS8NWlrBYQosPIi}x8J=xZci~-}tB|<{Q#4ERufu&R1=V#SCIhuo
z9T&6tFDiVY*q%6gYy)RQ{teQW2VK2QWw_s86xR^do<7f?7Q5^CLm2HK<;YE+{+%Y?
zjf#h+QtoTmUjq+IKV5&bYVr;8h&N@zlcn2#o_~KF(LS`)FJ303vQnGW<!&?EZv4CJ
zy@lOV^i9WirYMP}&;=iNgf*z3xc)NV{;#-oILVyMJXiHHC-1eXrIpdV<<*;kRRh{#
z9W~NYF@j_2uKNHyhdI1_4nax}jro*ZRMkco9rQGh*iX#rjmmVYjellf4)ZipJ9W=L
zYl)fiW~@y<+n0aqw72dgX`1Qt1*2f;nmg^5QDU7$)i*Yd6}jMQz;C4dR;7nX{DB$u
zhWxu&R^LaLG{4Owg^*FolKF2~%FZxCv$S?0@S`UgHX#BqiwF#J=ufCD@Q~G29bjPQ
zRcSjX1C(&I+(?YR1}IV8Jd4WwYSxWQY@1-F#VJ9}6h&ph!=ejEKgu8&?u;<c5VQqH
z4yPL2iT6Qv6RV9UJm6RC#OI&%bdvVMXX*6_cuc0!Th4rKc)8T$G}dq>BBKa#T1F(v
zoX-6;FaZxiA2nV0nCZHxlc|`|)`_EFoH5xY(<CfZ^%2yQ+;GJyey$Hv?wYhx&j$Mp
z7OC`vrdYqp#C6m7fLlJKfox~tOC0{;tEMN8SMqQhA+^bq09>=!9&v=WE$agMbsW2E
zEO#vizinMux9L5`P%jkJ-wpe-u_(Wmk$P~<-+1*>T~_QPuu*TXKKm*mf|Es(Ar<li
zeR4Vo6G>Hy7v2W@<G=^*cy@Rjo{)hLXqkK@W>qjeOvb#3Jef2KNw9=H^%ydwE>$Bw
zhMZo4O(uuAB<5emkp^LEG(4(?vQB~wo+;}hRcTn{TIa44AK2n%3Nm@V6%zQthp|H3
z%~|e-q|4(<qS^3~huGK)$qd7kSY1nl9bO=0tdg^chO;<%@q$;`P}$^(1j+2jE@hen
zv$Egrg$)P}`?ez~7=gN<m%5cBGMEshl!=*|J*fqTn9bPi@g@6Yb&y$e_w6xmqy=&W
zP#PN=FxKHvDku)FjZmniP@SKq;>?CvzhksXuinP;8hp0`^SQYZn|>I<BB1oBS;DmD
z6YPLVqI1!ECL4_T<=^#6`EDUOqs8gcquzmY$m$x}J!CkyA9Fb4Yl{r=7!ae{BmDa_
ziR6r<(?1UiO2LE$*jE44{#hk%%2XUMFT+3UwGPLJK~k5xH~=p*9KBk*6cIw@80_G5
z&%T*8q6=H9p+lY*&7m2SR3`9B@2SM<x1%)8EJhBrLleXp(@oQgP2>9o$I-Xv_h0=i
z<#e@Ct-nuMKM{IhAteyN;b#r$q#*2V*bYo&Uk>~*&Eb1Bi~3xhvx3<qD;G|eV=1fT
z^Y#z@-CJ0;{Z~|a+m*25?>#B8zJ%MM`E2LW6s}G7@2<+HVcDS}$(uyjSR3ODgdX-7
z4@w5mGLsd@iS$`0vpUfgA0CyH41{%Zl{0N$B_eD-+#gPPPqG$K9-zdEV~vW01vl@|
z>S#1xJR_*h%N(>@aiHLQF}D#Q>ErTFPEX<@^YU^Q+tcvl@|*^H!Aq8wI}3Z+cjkPi
zF*`oCfn{zHb=S;0Fa0zy$2SAfF5^{~JKaBwQZp&BC~x=cs(BHMXx_Zbd})RsGBJdo
z?9gj1zfZEOc$H+(*YwITSFw`&!$gJ1e4YERTj^rbn!ekp;F@~V)rOxbn^#X=8=SVe
zmExRovD=rDI^rv?{pXi|xGNmeg<8K+a^XPA#oDs4Q~S7_zk8UsYd=04Hc>>u@t64T
z_4Z9m-y#2aRKk$seoFWcuDWa@bLWz#%I#>al*lQfhG}HwhpY!U#~5mfuL%yHs;bW)
zNURkXE$OXVXdJ$?z!iTg74E#v|1%w3>Y@{A(NjNjL7o&?6Zd%1*d-N1-+306ATyT`
zN5mJ|pMO2%=O*^IW1lmtMYpu&`S5@!&K2Fo;v6wnAMDo#=cB)8x!1+d9}2k>&RAJ$
zm)*K=r!LnA_M}AeMKH~0Z*p}coqn0Uum0@~*FaCgvaE2GXmrPiJ)u!K{i`&$RITSn
zk^|<7xTV@7GkZwd3oo;cYGsCM9Anp0nR4M%KMy;S)E5^rZS|LomoZoKN}PYa-=T(3
zmB!vS)nJsld!3(f^Ul3Xp0pS#5SF+s8r(fM_&IZ$jI{LVx=A8Kv4GRu5Zk8jT$SGR
zg7C5E!0#E)bOVoT_19*JMm*R;9@uqH9}WHi`hoF3I%mt&o-C1eQP?%a`B?Anevpq+
zhi#|W!iRL($$DShWNh(p5_qPKkCjc7HSd-^vwk^eIpHN=d0n8nkRGT;A{Nc?D48Lr
z@tD}n^Hk!I+kNP6UUt*L?FViyk$1+fY;Bwt;lb3WLwAI9mB8k(c&oU9nH){eoWSsi
zGWN3hFEzqk(evSQ>_ca;Ll#jf?|anoBwdCRS-4TPGv7?F+)wx(<M{a=c!<WU68Gp5
zuv!zm|E{5>XXZNgE9)k>pgnFZ{Ji9qi#+i%P4$j!s%F{3*lYb#xGd))m;$qgxyWVA
zf<RWHHfc=aPs)Cq<~ROWGryl+nCt$%$~K5L4QdV;7nvq9+~glp8ZuO=I{Nc9K7yWf
z^*t5$-)g_P`N}{1XF_cif36df`L{n)s&Xm*t|P+}INtqo!r-=ZhJOF~sU}~jev(-<
zv6jcH>35i%pX1(VuF#>ck4<1cy*b~lJ>E}EKhvpmEt2KG56NJ(v5B5yvY0d@|K-nj
zdgyCOnF03{vn4j9KOMbLHS^L|tNM?xG~?(y-%LYS+_BJ$=I`~5na)4n#2})SFw<Xl
zVAJYPj!^9g#%9g1C>$YLV=O4wJy)<m>t+y^sQ3An`f6ud<C1aI_g%ToyATm^cXuOx
z`Rb)yU)8AvON<QhtEUa{{K>FxLXM_`J{3g^NQ_4{QZC6Odf%qJRKHzq!QdyjxVoT<
z-`skAc4b*UnO;Gid|Xt2Xf`1GZgp#a$}#!GHf>-M_5#goelyMXUA6#0&$kEJK>ZE#
zYLA}9(sfmPPm84u1!@-BK=_ksH8E5hy%=XFjF@;|(>9lz$G9{p7c7c%YfgQCRX5(;
zUmM=p(VnFozwV~_CsjSNrr-RKO!~n|zhore_+<P|&WvM7g71`s&?3qDVjQ`L3h9u7
z)n#@U+|`ZeFEc;ag@;r3vzfJ3ToMNYeAAHll#>AeV>Ukmu^(p_N0<s#NlALqiy1z<
zVx`2N468=xYs~_6U^gve>z0)c{J-(l2>-hIGZLH6Q;iy_qx?qsuQ*L+8hccqffv5o
z7aCg*F8gTCA@N;G)2`3jJNd)uYH(`LxjQ-tQklQ{=wIST`I56to0>I7RKJ=xR}*-R
zd$HqosD>9e>v@ElE<@pZTa2htK^7@`r;a}G-ORY?DpR%opyy+RX?Ai~h2?_s#B7lL
zrFcH0hs8xU6`K3b`>nPdrd=hW2@(Bl>&I(+$p=K^D;)w2vGWa-9<MAW(}s^qu#ICZ
zgTsUK{2AX7*8LAW%n0yDJm+9-F3g-bJBG(7%=aZLpJ<UEY!U_iWVEpxBfjIUSY$%^
ztW^3pF>Z8UG`m@5e5mc@es^*ElK<Y>A%!v~G>FP&!FEl^PoB23Y?7qB6n0^Sab^aA
zUbdoKcE{$MI`TWOzF`H{B$32W%ZqWbcX{2<9v>@UFXbX)QxKXPTaJS<O{UfwIqb1i
zTEcS>8QXZnuth}LMUnSymPyihjFEF+aSHIo6S5Uj20OmW!dCnm%w|qY-Yt#$aL1(?
zvGnl#w!CL<QS*S0yZ!^+udH~?dZF)X<#-8CA4eP0P5H^Fa}?E!HRtLxS;!AlsB+@b
zQzgeSatbT6)CA_w+Ek4Cc~+Ig=h5L4TF<|sOTbBaqjSUIWuVi-X=R`iz>OP{qq(6;
z2590FAl<FFb)+~^NPnJSf|U--CX9@a-tJY?D1U=IN!DdtjnrUlpegE_U(sT5chAl}
zq*#Vz<>%r<7^tk)U@M;MT4`dGd!m)vjcG9P%j$w0M_Mx4>#J+(pNpH}*xps?9g@bg
zubBwMEq1RZp9Y#at)+jg`mjd+>2>FYFNx3tZ;?Y<9WHHnyv>i>OOl{6J@E=_Qo)Ih
z8AS`LAzIa;;@Dh`LDW={2{iXKSGIa*mz~V>Y)$4OpI-gUf<0r`P=Y1CYI)|<IhE-2
z)31AEBJ{jd{C@qPnV$#tcf$={Rlo?Rx>w7vW3p(cDb)qWr1$B~x4V>9_kU>)s3duX
z^Yd&%Qy`lsUYGbMx>k`>?ze&b_AD=@-1gD5fvk4ibcJv2F$PWKmBHQd#e{E@c@f91
zEl>0QGiC4p083!5VDG$JPYQ#U_?+`LQ-J@C<2ob#7qYU7g~1n^#sR8pEjYYq9f~h0
zENk%iH!kp=Ire|MHWehh`2M5Vr+z=qMU97VsEnd)dTEE|l;t8$`DK}LjCD6%h*XGo
zPrmcJW~S{o$gwcblEM@U4hN(emS}qw7>Ct9Z!Pd0iM%ljHwe4FSFgN#e-~g+VLcCv
zy1#<6%JY>Gcb}PbyRcPEzLReB8A{gt%YAe-;=%Ko6^mQb;|GtY-2Uc!nka0JecZjj
zM%6dt^vAJeLj4Md2QL|g?mu#QVl;gYjNg+S8LPpv-?l5(b>GA&(ugE_9ZM&qlsx=J
zF}UeMJ7$@4>C@~2^;~b3bY-83f+tfLu74G>pTL(D`o(3Oi`2F)e2JIH>U-Yi)zgN*
z4t#qD^7>x8Av*LCdLinFC+Y?0*&*5#64nL3GD_0b$nQlP#e1fXUed}|2KTEj3@+~_
z0aHn~q%I+0SW$t7CZe0fmsg>i4@DVCr=7WcuiSrKd*uD5ENCpB?3{tE!t$D*N;lA2
z5FiM#eAGCg`)G()v*?kZTa{O}NET`LEHsR*F^;_V@9me35mw{SLEUeEFfjslyxAzz
zIhaG<`_#^to-4jBvU<97z_`p&#vs<Kec0vJ(fPiIaHg%(m-ZklX3Nnt$>!wb(ht{>
z-S1Qw@8eeVmqhatr9QYbK9%zf0_|~SM9YCDg1(_<qocFrJ^f}wKdKg7O4b=xsn#dj
zj=1HDmZY%7L#aKTNQ8WfXV+LC-W~QCxF#~7=)2bQ%B)!MCJMq`eK*-94bVf2BQkaA
zn9mTzxz1snC8=tML6_V_f=#PnHNk_mgM;srLsZjSSFHPxyswsFMs|bxmNv%zn4d31
zyrx#LpE9PGc?M<U>6f%HjlRl^;5Ox}ZR(u_YhGSCDcgEE@l>MZjS5L|Vb8ct)F%zv
z7_jzF(bNTb5ZF@2<*hP*TA<u!d?&VG&>g(SqT@Q1S?FU3?iNpV4>n(YQcB;!$wTx5
zpCUT+M>B3w^@c_vHTzw6{Gnu0VUE@dzRyx*ovN-ew=OtjR{!k+;k{kn))W^X2Gf>%
zzsgl#RCBBudX>yHHhZ~NF)LqVQHhknnH4*$uF_6zr_hCDJN&ZWl(mLEoFJ(5T2@_{
z53aEv-`ON|Xqu0kLoPDQl2CZ~@Hioe^_U~WiAcII!7Unzza?yJ<tiaZMR<~ZhO^F$
z028ZvgbxL)dKkH_UVaw-2{}s~_Q!p%a76wNt^mYOiY7>HS=^x#$C~P)PhS72B|qxF
zlBXCZWMR)~4Kx)@DUyyCIBD8jL(ec3AkitQJHcIX=+2tQU2@XnHZm{6iu$5F*%e2E
zg&T#Z`INkfj}oB=t*}P^xvMG<M%@GHNy5HH(tNh)nu#6eANjFT#>HT*@~$nVvT(D7
zl(uX+a;9i9>7)`Ps>sU#Hy)w+!Jyy^iE~Y+1`CvPn|J1N6L>*Oc@@-846KVJ_?(c(
zV@rO#u~R2wYd&ZB5_uqCIzDoz*K7U5sNv|X$jOv~u}Nh(0{k~63mS55>eX<yo3GXx
zTyf>k;hJMuSGRselz&6<n#tsLjd3o;Ic6{Xq4fgc{vnaXElo37%ZqXS?Zu2QJ1-H{
z*q{H-j&=Ri<>cSrTvVu)-~V?b|EY{V85zz=@)@Nn#pV^~H{2UhX_yTR47|)u3OlJm
z9r34kim-$a?-8ryd@?mD-@<w<EWVmC??#ZvIDRrJE1pZ@B!S{em|XTpzUm~{N1xVC
z)XiGXiiaA7_Ig4~LJaj|AL4sLH*{PZZ1Xy}f=Gh5h*7q9#!1+LX~b7AM-Q3Bz2O}Z
zr^)K{V5@UBiZlBa^=bw31It@%N6z`wGNWE1<Evq+xXgZJz`*=PxXS=96Lj{u`rRPT
zb8V&g{4^E}%xb}}t2yt7rk+Siy%WX%p|(|;wN0G`H>JcY9?as8dC14~dijqV<^-)S
zx_T2DoEq*_+dVRV8Dc2Ca_jMvv04;Pon5we`!OMU@AIIxl970s!Khh;**z4Imu@mI
z<ENsFO#IB)Tlx3`cMG}yj#(B-p_s{52x#=XjY;EZneDM@-E$<q=yw)}+rQOTxHwR+
z;DTj~<83y*ZNaM+(a_FeUW1u@rdBZ6{i*%^^fEr$+3s^>gTo(D)IkawXgo0|;(d)@
z3`6LW^=r#srwovwUif)v$*A0|>u-C??wDtopI<a(>KFNIUAtTt=jlc|b_NT-;cgBr
ztjC<N^?WAebuB>?+tYM##$R(3mS>cxuCnd8=h`5D-(`PiMTme{(~iyHfab7Y`9z+j
zeI=S@MZbRM{TQMpokZo#lolrLF`wGkbwRqGx9>F$@_l?@1K}FUa1pw>?8GXEXoUqD
z2PgDDn(ijgB!=3=Zx3}i2d?<0_dotoWie7j-A}3i;pxCtT}RN4syprbL3QYyMnQJ!
zbn4Qf>|Lqe#}sRp=Cdn<U4A>o<`w}Z{oQTN@tec84pnrPL`yTf+bWfAR3cKH4<t_|
zT1)V84xe|t#BpTqCLa_=+~@sH?BV3+MJ8lg5Z?G5NpRt3mC;XcuWx$0VcHzcuOEW*
zGV;P59dl0C>2AUiB&g5oM45!|?4}Q*W6p2CFHe3<E4i#1)46mQJj5>YA(PfwGcaf?
zs@)*)6lScnUFR1Q^luP|E8%Ss9DEfRdcy2o?R*?D@Gy1c;^dWN?C2u?n_Oynqjq*+
z`$p+VZLg2}8|Ad}Ho<$Lq(@{&Ui(A0<2?r-x=*(AHI^@?&x~&I3oo;hg>uNH)O1MJ
z6?QyTMzzWL!@0g^+2XC(Sdk)Hv1G8qViVQ}TCz@9k)>Kyj`L1A8_2ZOe%|LQ66MH<
z6)ozHEjcr4S=V`8`KdJSt++-@OGu+n#!l#ZsL(u?Zz1`&$AI;pb0>dEhK$8fR_pKF
zY5(`P%0BGsZkNhF@_&EZk5~?VhoP{({O}&_&{2b`din=^-G8_JzYJ@j2Xf-HI^W7V
z*sSF!24G`q#`p*&vX5Eqd9e81y&@)%o|~u(x_dxI4WBKaK%hB1tQ;E{$Sh_TFUZK1
zo!Xv#*2a1MAts_YOetcsz9Ns9tx~@YV|4k$H&Hq4DFlwddd~pkT<bau7BxXZ!W9qS
zpmyXBuU^8-;gWSB+H?iS)V*wK`pVDb6)s7C(LKhNv@CkU^i<UHv)1BEfe|~+RANMv
zmaatls4WlO&9{G%;40F%8WnE-_dNNly=S%%PS1!RZF?ohGj~1D;)SAx>N^HTaVIV6
zF*>^$zgx0``Ab8l+{4B5NUskmH$&h0=!jSCUOb4T^vidq{F>F}AM0!gj+)iLb{)Rf
z#(KIFSyTq2{vNptNh54xPP<5n;#_O6&k>{5+LwGnh1t@JAarH#mR<f8qu$Su)>nT&
zZkW?3MTxcXcVp-z7g>eET+VgWDs^gT7({mNosHMaEKfIkVu>Vdv!1*(lhpa!B-%vw
zHK!Nj;{m-xBY(>{eqV+m>4SVtH}CI)!Cb{*C1=$z>s%KcnC1;_dhQ??eOgtVFQ#9)
zEQ4~NYg#^<yny{Ct&fJ&zEvK@!hJ=A*Rq!#{+7MrqHp(jYkM)t<nPl4)b+X=w~^xL
zpy<8k<Lwz?*4Bpy>!QHks^%S6X{}c<+XR*cgXZSJ-qG7RJID>^s}zRBNJm|fnc=w`
zLHHM3NsZ)WA%AlWo~;C$y^ez`wz62Y*Q5L!x1K;Jzcx0_*_4AxNxq65-Rgw)!vk%Y
zE4a(Sl=QKQu{o6{G|+eA`QVFbW2~~!&vkeUoaaPOcLD;NS=ZC(LJC{<)ZyifN1UqV
z73owlbKY8I>7k`}(lNSNCcn#G9`$G17U<VtR@S-ECR-|9jb<C;Y`MG*?#y%Ed9CMW
z+lCt}^-6Ohhj+{Zn{tkkm7b*Sw-c7$B017j=OgSAkKGS3{pcOaOrPI2^rM$Hg{|;b
z(S^F5nU-?i*-mT+#_qP)!R(XWwKVy^-+x#$JU`r=x<B$|5a8Dz5_9|TKsxK>&g%Xd
zc9u4${e1pdHhjT*<*#a?_vz%`p4YH~O)_qeL4;wai$xum=~B>7rWoD+gCf@uVV--T
zj6PNAi58yHd(}?#4wj|tVHa&z7CwHfe2s0tkeTL2{HjAHU5j?KYky?F1&8UL{QVrm
zvdFYd<8}G;_wn$EwVqkzB?<6i*ooWD-sX8%dw(!3QCZd7Qw+j+Uu)CawQ+eoi?nGp
z&kGbe|NbI{7U%ouLZb3ofLS?3w8?anpOtqT#XP5exlokX`B>hHu=@S}TyxyIEXM--
z9xdE4)^;Y^XAR>hI;!&rT~gUZE(61%Q#5miZ132;9`nT2PtzN6^h6QD$>yI(Ms0b~
z&er)xMn7epsC)~X3^2Hj)VqFP6Z=u)QO~!)!P;JRNuWzRisCQHNtnh$j<?T9D&w)P
zL~bW@1ggr*Z$$6pswzW$EYrTE_8<x2Vl*eGONFU~=N&}7QaYQIJ&(Mk9I*GS8i->U
zvCCFXT?v#Q)c8BOr>54;pm+MyKDkg=NVcy*M)No7!SK`~`$wC?^4h*?Nxq#T<G-w%
z{xB{Ta)vvSXNdo8{PTKRIh@2uD|7zZ?PE&wZ)$BSE^{v!;w1~J(v&5i{k>JmHav)E
zj43YTdHNlm`o$Tkq$sVSa?XS+9Szr7BSGnWn+Go$dHK-7_|n9<H~sy~bc$Qz&}l5s
zIm>lZ0Sbq=!?j&5k?D0N+O=+e#gxl41s-h!izzPq>!xYFsxsMXJ`o8DFJE6K=jZkX
zH-!D%$GxKDw-j6Y<T!_`Cr?^uq{2!n>u=1qInDMbXVJKkp*;g1cJLR^icg$y$x=Yq
z71Ek`*mqR6EUgTZ{P*7^!f87aEa@x=%Wv9R4;0Vf;gLo#TbmIEMxJrrj5+DE%GZBy
z-3ktvlSEU|>bD}1>PQM%H<b`PZ>r!XryO_zAMI^#)U0W-2+!$bN_<{a=(>~nO_@S^
zo6Hy2S&U3Hthgpb^_{J}U;imWVnkquS^Z=!5;{v6+iH+3|HD*UNO=UEE{1acHDmd+
zB3d?guFa?-yj%0YpMTqgh&ZvZ9_n?%$hc+S7@du6glg?j8@p-36}xuiI=-HoY~5<7
zvewJ`E|XqH9KepKVNHBll~8PH<Z5o!{Na>vDrD<(Myu;q$X0!tNG2n;@o~dnUMZc$
zf?c)C=epw95%Ifrp489zg~+0I(3y<J8YO0bNbb+{cl;60+Gm+0?e>K=FFEvN%Q$pK
zf6+Jh%Y<HNdW6uR_p;pVs-9<B7ygC*FNN<K!=~lkRD0Y$`*HCE*UWFO$g^&bbmAkn
zP_Hd?x&J6W32v2c*w>idCOkfn*2Om0z<F&>>c*VzOpn9r!XeZ{x5AgS)JW;fdrtF&
zBeYtn{BBx1@QrGIjk$AwZ*$DsC&<<^vp+8!4mb7-(w}7CVg2q9Ti!r3)vr8|Mo91f
zV-SJl?@q~(`y_!4YvvI}esP)7vT0ahVIuDD{eA)JI<Js@%iovOG4bT)x`U+whGCe+
z`O3Uw>BWg}52s+&D2*~i1BDQI{yeH>`c$zlZk8)-hAo7Xbw9gAmhK{eJNO3M@ZT-Q
zp;QB%Jt3U`J=3l_hiBIlCE#B{-qCPukW7`#Rk8URc)RaOI=Q|yU`pbU&tGR_?dz4E
zqP&DPHe}Y^$RRwYKQxu8pLcm$ea4yWo{{Zv)8A;@pN`4Qf3X`QjpfU1#vgODdbnUj
zEc)UP$7z@SMyI6anc;Sm-%VYS-`k^;nT*8gg$2&B+Lxh%y9(|2v3iTtDhgi;Z&_I6
zg2r2#7w%4kyet-ae?FHfG$Sll9QV(L|KU!4#Nv{iT`#;9pihghhhs88YRg-*h41?T
z!y%}(@oj4lIms_{$*bnf5qVZb?qBfPS1qF)1RAWe-JTNHe~9ikZ6#t?A52&GeXR5>
z6SVr)NM4e~?!3|3On9~t?SyoLlK9T(?JF00O%H)k6t(Q5Q3LuKZK5xu(Z9thd)P8x
z2z9=TZ|Z%cKB80Z^Y_0;h_{BlJ15pV_Dox-D2q4J{JNoosuBm6$nVhmz0jyV-^8TZ
zqBym%dDjO_Njz|`5!Os%On)QZBa)$~l+P}Qze9yPs?H`^hI?i-^nM4`a)*%9)<!NZ
zQ!^Verku6p*>i3;EOsyZ*F%C#iNfDz`M7I8INc$UiCm%8O_$C-ihgT1SVl<E3*>QO
zM(xOFUo8%A!{U}zH1j}Y|IKDq`phZ$w+lmgYRuC*n5D#7#UpCjC}H|%VNC@K6umw_
z9Z=p*Fb||i4ofc}o3CL;GB0R^Vl4jmPf7mC+-8cD{|7@ryuUgGNv*T+Op2;Nh8}{-
zhlai)3fW4v$57^_q}ahRZQ5`7?>9x}1i5;B({SLMOg3#a*IQsJ*)Z49`4qPe?CFW@
zE!f-IYnU(gAA1X|YI_5FLhuQX-%xj1qsKJLuzOMGTSn8yX+$sbW;9=6H$={=Ny&Oh
z0huvxVzehIE}}bY49J<-AqS*;-}t|tRmiJ>`z>NGV<}ZErzUZF)6XMJRG&A=>9xUI
z>&+W6Z+S^lWHkfGP+f1NU#3DJZ*f8hbH8S8LC-Qc0b0e#8?zw<+HwrFX|V<*LpFFu
zV7;%1q{!ai7@UpxoA)!Y(8f!{g+2!bcGpnTl<EM9k;x|@^3H+0pai+WxHtt{-vBuw
zf5EZa@PKRz!S-wFrF_Ljo`ICM-<iWq#9LhOIk^5Ut0F_LBA4KW2H$<S0t<c133gat
z!wX0owgop}t^eIH?4VwNp&uB{knO-bSb&Uc;yaR6$XY-Cyu0-xJ3xL=nsgd%mmop@
z=O@knRj8X~WXN^1kQ`Y^x;o-{QHDL*LAQ;bkfB5#!K3mBG4q_@Ql`De+!+dmEM*F*
z?#4es=2eZJ|L7SPaSdMO11Sk|8@Rb>4AuqB88RfiR}IRNt&yuLTQrudP!eq4hQar@
z2XQZv-S#JVzTtoEaSMmuqYnsY@cauI{uVa}Yuy6ZhJzilP`uzG3%Jgb5@ekVu+fD7
z=;-+bX6$h;3922IfzCvUK4V+Lm&JkLig9cMM1iw$jBhqo@F*FJ7CiCafyHjYB=#Nx
z?bXoO<5VwTnI}A<$jjm@cqN}w<YN5>M@H;T=et??y_f2#jqWg#iH3C}%UYVFP*k-W
zI4Hf$zdv79*PY}|pDd(^quhMK)L9gSkGh=h8~^fs+5diXR}fj!$^U5Li9#{Ky-V}M
zh^aS$W<U5obTu-_?p1x4!@Z6g-5o%`r!Xhj<8t;0H2<%eZz#v74xmb(WnzWP+;12>
zc5#bkoyPtT$@HGYCMCiuO{w(aN|r(%K40U--k%qL{9d2w{grz^f&K=zh4PWrFYX3-
z+Rd0<bD}U5hG+kg;ZrX~>6YDATeaP`H<<{rQh{I+X!X}`2-tOIk&mridV?cyI8RPa
z-j@Jp&Ln-9@DWoiV?y0I0!t6-+k|ke;y0dMF#_}9a+%!rygdXUro@FIaw$;&Sda~l
z=A2>_PPnB)pdFpD-?)L|7)PGCmO}kIB}r_Ln0b5uYP!$Et-palVY`TNnz%fn_#2cs
z3=H8!re3a;#jf`_y6(L|RotmQ<49X0w$3hFOQ<m(a{Y?9D98gg!?E@F^!g*5-$BhK
z6wAA{%j|H7%kJwx{d~m??Du0&JeYg(qCrvQkr1e3yh2I9vnWiP5nBz3RZ%+qIxAnt
zz@rwxK$FB{9QdKnG3^)~mT@aQ<24{Kk6Q2&2k}?HJzZ*JEfMw9XFeZRE;nr+qv%D2
za+rGdhvi}7>1h=S5Q#YCI~XI1LIw<rB$2n+#W-6zoKV{W4t(d`HSLVR=jxTuyDhJR
z+GvF~7l)34_YHv+5^HzSH0~BxYeb7OTHW$H$2A(_=FVXS#NBiYJb;ypUiHH`*R^A_
zb#j_=?o6Q#PLa=<>5?G8E;oc1=RVwr1Noc<#n?8mJY77^0tz%4NvMmNMj{t$Q*p4s
z6xxkOVwLK0rV?@heIXSW0YM!vzY6ovA<*B8^A)UP#Y<^*o<Ry=6Dsz$Tg0$>(hV``
zqGh{fjH?+zPe58bjynfs)u3j<*)3#R4>?++jw`vVZ%ZfYSc&$qLih8RJjcTwQcgya
zb6M?B{S^v=CCYqMxXYPr3RT(Epwy=Bg-!M9Ms#YgJKzLLRb{iv!5(JBQeb~UBqIA0
zdzS2Fjca(A`Y8rrEPtISPCfv^)-|1{A64HuF@Ivtq7+lET~HFrm|}ykt;C5UQPjM3
z^rG8O<x|}-9^4?xeH7SRY%6%%V5CW-x2tx!XR~J6A3wY=tJ*l`TR;6iJA$741DV(p
z3faiBH*4g&hJ0@@pdZdbCKq@8_|HvX`q95IG+$7kT#U~EX<d_IQ&(p_XVP(_LdSoV
z%DB^Tw*mGoK2yjyCqg>@NZ7(i|IdEUES-Tx{R~XfYoYCRCXyS%z&m_4ECNYWO)d}L
z*5|!RBA1(pL07zpwha>^>iW@h5$3mYu)m4L#Mf!~v3j53Q{EK*233%u9k&#x19;la
z)j@OOAQS-L*?$xWN$N31TeF=yy6)~&FAOHnm?i-Wq)z?y3(<C_yR9{sr56t2LB99q
z0rW>YeY#gDq*FcBiCS;)&u4F$+<6bwSI^upfRim#TRS~mQ?g@vi-H^AAj>S4McV+^
z$F)^F8ZKA+@6F;DC7F=WEhG~=yli3Pu2#2uQ0Q<N<>ntc?<PaZcrF^`k6^>vTH941
z$BByOzxPpA#E)e~5jG^HWt-_%!Z&)tr+x5vFk{k~x1h=c<bP$N9H+AClM0!c!7Uhj
zy&A{2;xAHbjC#?Lr7xgx-|sl+0}tj4s5frKmx0+491TmJm%MOG9`qq2FA;VNR=VyD
zdw=|k4z#F%8*fN)?D*JSRM)|=uD%!ZqK2VlSq1v5UDi;YFLp%3MAU*~$4vPdGe|_!
zFlS1Gd=J=lfbn74y>saYz9<v?38W_1QZzOqtfTwMx}AIZfg-e%BBKq<q`*O%o2D6)
zjS2jmr06*mp>H09|BSnPkA}Qm%S{Y32PN(5hP>J9m+n}R58g5}acqZE!;XCp`*Vsv
z?`pB7^c2_wc-p;|QFEd&5XYzAh@hZ8R_ff*8JV%|b!uOBA_SWgl3Wt%c%QyOpr>;x
zg*bhIht2=D`_HmFz(W|l2Wqr<-j3q+?H{@U<f<K0S{AV`BtgT12}!ixfsmAGF`K$@
z1Ep-P5L}W*dg=p0&sb8-bjVVU+!bXBWouwKCkEyBMhyv$--I0^<yj)^7=B7KO{5iL
zQeFydseZG=#Jmn4TXNeulgH0?J1bt8YG^Jp8_fAecjT09hWE;)RY3*2jx(?7cvF+I
zK#dBfa7y4hg-vSOm5iPkux|Pj)71%ZYP325{-3KT_}XNRPwyJX1S}}ch1g+^#{7yX
z1r6*gB=5{(SCALFCuD$CU+K6>U+dj={o&5TNm31AKfT-Rf&=s22tLoL)+G7dD*Y(N
z0g)=^lEA*TeJBTA=%gDTmHrY&;U%&1z!9@B(vc3-=Jsy7eBIvXkH278R_~hwMW+3S
z{YzA*R;l~6bC$u}`3(cZ@`#jNdb9F5t3Qc3jwP>D2${bX4i(7+tFqLf#Z#d0bg)JX
z^#gALK#q_+hP=cg^u#xW8N&qUE&0AFnc9czWW&~Eel~jfxhfV;^4H-0C38DlTZ)o*
z;ji&*v4;HtU#rb$m;;spc-p1UK?{OF5Qbs;N3NmZRl7v62QBb6th+;Q<gUz)QvbfR
zJxApA8{P*7YFWuyauqNcPIT^Xdq02>le5|zgoiabtL~0L6kR|?x(8D3im<LpnZXX~
z4MMDc>T`o+XEZR9ACdSe()M_O$~(4h+C~+N)UYC6nf8mJC6_6P<no!`p-635E)f0&
zvIyw-%L`Mjl|YfX0nZh9+SOcXbECQvt@n@24j+R<W;{2}=1gufUsN)d9TK*%B$NF5
zCke2zjX=VLSFdhek7Jv2)U8%8QUkcVn$E7?A5#-tWz$smjmMwM{C2YX0+JLbkqZLo
zCXuXoL41|jCjRt3dPU(POAriZS6T7jG<`igx1aue{0bJof$ByHQoRf%dX_*hOAR;j
zedK16e33-K41WQ$D6ubqW3BNAfc&(?vLzLma0O%hQK|$mR^~9C*|H0^KhS}e`kq@b
zs06JT!g4L&e@>pJ^T`WP($7#sNfITJ?2v!vC{5u8IalxV6xhlV|8D_F&m!PPLG1Ym
z&|f>HIt*Y#tP%XOFR=XtZ1uA~Zd*PF&ctyhwz2~M0hK<N?fNv=(D#?neLY>Ny7M<f
z;ffB{qB!>nLXM8;$6Kvg4Qi#|$RSX^yjc0;#j}cdbMdIW!0T6C`w28W(#Tcbk!yJ&
z))yIqIm7RW=56T#I9rZo!_44Osf!qf4p!~ed-F`m*{2c1B=y3LMBgB=gb4!c5Wr+Z
zm8)L-pDCAqfz3zG$W<Vv^jp1AUA)hml%e<@xm59ie(7a+*wUm>$%mIcOICtXtW8iy
zEvzpr6x374wz0jubyzz8sIcw{WHTJTJP+M0hZ!Pjv}GVoZnmFL<*7i8AqJOj@aqC?
z0u*ND7aAqfr;#6pvZMGY#2=1C7NU=#$h03QM2Y8~C7b++P@6_U07vK3V(2AlE2FxC
z8Kg}5g@^oAN>`4+?@jW15ad~LO)7zAo23_4R*L})piuz4+Nte@FhHxm7)pVWhjkQ%
z8%3Htc&WGa@Ur-<#^d6+hE77V3ZOV&cEOMd-G`~0t|S*g&&ZFfsY!KiER{f2D;%%w
ztS7<{qtFVBAX;I^^68^~FxCcTz*}L}l-K_RJc~&qS9{4FT`2}*8CBmNtRn(cy45lG
z-l3nPitmw-$+mu#xC<yPS3rBqqYPO%e$$K6yB6y#76@Ii=6yt?Ub?%|J|BR>cz}rq
z!|dBg8l3reG97zX4z@-pdL=d486!`@xk>nrl1wGZbZa7{&4|G}DoIu=k3JxCEqGW9
z<gXuy1s<{SI6)Qc41y*Z#iG}4=qr8S31`L$&QF{0+UK=lmRh+E{EJ$stlzi^*8aG+
zU_A$&P8$7;f)iFcL=702?;ZOalN!fa__^mzBx#zbSrkxoHAd*Q6_;xMj^dWFUAQEy
zQesjP?kbE{)?%n-@@)VjT!U12OxjM2t!Jc|oRL{6Wcpp?2$arZ&T%_%eVQAQPnmGO
zK&VX4!i|sY1eZn#2b=?+mG+kJ(2R+E#E$on`^qP=Xq62PelAYRQCVwIJvVCh$P|m~
zv?+b1?<+RFjctXN`KDrHrqm65$~wrjb8<C#S8<u#l8JD!W&1}+Hrc`^fN7pl>U}j^
z3%8_mAxZl&v*o^NVVBWc-F&Ltr&%^Ph{@105Bkm<zOo{C;3ufLNfCxeeg;V@DO&8G
z$@52mhij!Vnb`5<_WR<A#37zl7$J|h6qJ`UIMi*hr_bb$2^>qUEhI<+A)(oQ^%GE*
zgj`uItKxH5vMd$`n!+6?lOp6A+azH+z;=#fX%08RxMfkr0vear*iva?Y#dUtxeOr<
zYPX~w5>lNdBupy-TZ&)YQtTJ$0&@H#L}5O7>6Gl632|Hsaafq+CSUrVD?~CEB9Ro#
za);6kJGhJ;3>%rQ#F%Q^g+esfLV0w@<g;z;Mu?`%0N6aYLOh*Dz$UsAtUq`Rfz7rM
zW9v2sHdU`3>aL7H=Ff8u=cH#U&~Jylw;acr4PT}>taRq4AW16;S$lSR6lY!(>euw2
zLJz7P<>BhmTcgYiQ0jE*V$D|-2vx+4JXztlp99~~Pr(ZRJR7zbuIL{p(0%c%vS$I#
zP^@b3Gq>i;EPPAANci$)7L(JuD`@Kg7lESQQ2p5-lsQn)b{x7_;`X&CRb<bxAu<ij
zdgOEKYo^V`r~-xLWEzDjDf>^WA=RaT!Sa+uEGu~7=V>n-7zCQlziHE*46{hiMRta`
zl3^Cpg#Z&rGR&gk%eu?mpnc!ZmvL+SnaP1kx2+V7f2D8*kba9t`^!H`U3DaDg1-1E
zI_pRVhyK>(^%cBYL}Q7;m&5a!7L&#7h%U!#qu*3p%_^cc$(wa{A5s_Rbv1L}9oP*q
zfFe=HswmsnM&mOv--RE+aU?7ZS9adUWV=pAWK+&ot1;>9=<k?x=bz!2bn|>nyHxJb
zdQ7@Sz8sNGJ<GFbOuq9dQ^w?*NAGA%z6A=r5&5(;e6>3&;Rp1_Tz?wvVIG%|^d^o<
zi1X+X39Gj75g8X5%)Bw}RR0~Oa6RVIH_p)-=Kh!yY2N0zVD&~_9<{E?F-T3n-0?N5
zt=}$M{`&ZMQ--fbw!UM3Tl)7IC1~oyJVl+G+rKy)vybkoFj%*Y9QuYCvx7y6;#9-c
zANs4!$m@$!{I#2fd+u52?p|ur|3iEIs{#2;_+b8lyZr4OGn3<AA-!}oT{S7@QHX%6
z=c<Y3slWbNdm2wd>Tg#KQ~yt5>fvh@Yf{i3A!&H#fhkk#ev0}%4QZgQ9ber)vK;t^
z03Cea7>Z{2=34{myc{!Yp45)lHrX8Zdm4G8L35tE>)^<i@o1P)jQ1F*0k-eHAm{G3
z-rV`uN0`GMZXGn7%k&dwDYRwFk?k-IZ^hq&+I8r_2mr|F+SD!zLD7*TcoHsixSKB6
zGLaG<@5^bx%mKe~=mFQgg0Sm(=Lz%=VQX8*ouJN}FlgEzlqLN}?!>$lmfpMWoGIed
zg`3Y_^iEuQ@+OMwgU*}x1?nK>Z0U8DKR&-Z;;Hc%vzxPAI{F(YJw($k;S%|s!hP}7
zcJ1k$kw$sqqEtgcoPBBzdEMTgyQ^QEqDZtzqIXXcKwHXyW6{Y4%c!jAX5{G%?E{h}
zN(6SF&~&l7kH5xP++)cDsWn298}Qp;=c&=M^RNxSWYZvDuTi3r+w5dI9unN^C2$$=
zEkBB0;WL7(@}V4an7pFIaf(Mp^x`Z&uTg6B9C%Pjat7QVkluc{ua=#6=++7cp|($`
zyLpmE$#A3Ho~(b%95yiSYKAdcwM8D6D{UmkvZZXSrGe>A7`_XAzg`s4Cc%^Ox~tW`
z%fR$fKpkIsb@RQ%`jY;*=*OGVg`=QoeTvQnHf0a|<f+zG85e!f#h&_xu~(C<%lpq5
zal5YXejLwsl6!}(1~LB!QLB<?G{s3ON#uN-b`^O+|FBOVoOXw5>r`spQPK|Y4ma=|
zhPxzK0bON0{{my>=zGU@P0#6&o_nf8(u?QS-~=o1!tK16hnwBC=t|E>dm9sz5El(<
zZLJQ&R*wRhK$_g4EKfqhvo(OnRQ~9$kVS9$87Rj8NTNI*Gsag9gro6YM9DawYkNj_
zbVJF>_`F%csUp-n0*6D~_52N*y*Y2g;$0`hR!O8YZ%{zedp9T`>8=|Tko3<D3P?KS
z1_fN4Qo1$(7F}+GBGNv#K@n-E+MtNE7j4jOilW<WSV-DWHtc2!?HC&v@}vx;8Ip8;
z4VsUaT~>o)mVH!1Vs1O7h6LU9LJf&pI|v>q|2Xbv8lZgIrRjO?;j04`mgI55$w+%X
zI6bE)0E28PFm-+EDCr46xt)*y{4YFy+~xlX-~)Ktt(0MJn=lZDwSR;$cG8bEB`TAk
zYtwDXzMLH6L^L>Nwv#FQ^|K9|7By9xX+jt{-#zd7?gTv5d08J8b_%u2E$t?Y`_=w2
zX?_Aiz0m>`7e=SJRekN))LWnRR_^A`NUqA-4Oecrw|8v$?Z-zo{|uSXMrN&(hC0Jr
zXD32;ofHnGGow}MH@MS=&7inhdjka5k;PC3Q{M32n=Dqm#})5OmJ0aeK!Mn<6@x++
zXhRCCb^3fvmU)%D0Jg^+k;Z6)(jq)6X)WK#qCQj>7+(4N1`u@`gjRjqNr>LXSdIxW
z?knP#(*v_5u<ZDE-YmU?A}I<B3BwJ1fTs|T;9N$&q}*5u-}l<da>#l!Ti_S|u%+Z4
z2=6*A@IeavMT&UZ31rqOm(BfB_-_Iz`4k|Jfk7f~)I2Xa86;yHq22X+_da0?8F$X0
zq?Xpnrjm{a{R|L^`c(jyfp?OG_<A-C;zAK47T-3_8#6;hr+1R%agFaIRc<a(X|BD0
zdNp`=2~2XW6u*|c=`V592Xh^?@<Vx+8OuM628yj=`}JCyX=_2M-W~rbnu@)#+KjQu
z*;u-Yt}&SA(H~2__A%u<1nH^ZZ+ra9ydFJo{14or{zFRx@)wVM!@KX60`MGo+QnVz
zQ{qk&uJ=D83E}t%2+A%VtLW-}Nd*`%n#&w2{`J2c96{%LCg@wW<tjybru*sc>FMst
zSl1V?=NHK!o-Ot1y74eLZ#-E>y!N$5nELZ1wG*-!UnG6q(i&I0PcD+|qo&m)?_s2C
zr^F|bGe0NEW3cE&tJEWYviXXc1kc1b2Z86=L&GO;*=PT=>W|tSW<Qk1C>}3p7c?{@
zBB5)~iDf5A6qnD%4J)V3c(@(fQSA7uj7YmAqMP|g#Cmfw5u}Ml>=lWuS(K685Y#Oi
zIm2~w7EG%(agwp0G~>|rH&3*wPm}`{&uH3J{(C=NE=kmJVvBfTvfeyBl4hWFPP|!3
zz_&fJC<rhg)w&URNu7wqRzf1r@$DptibwAAXY_vSBAVaW+H7H&FKLjFZW34pKJhhY
zMp|R!5O;BByD2HK=}d!Z@znnL{)tt8Af~o{<Cq&=l^Egk<DE>-BznzNKY#jq_gDVq
z=iW*G;osXY@8;HO&Vz`w7i4LtZqh#4{J;5oOP@KxP8d0UQYu8#YUk7K2k+$rJf<n^
zlw&dN$5>^CI(Gw~6t>$fjoIi$9)qXy%jTf?S^O?D!h+1wmE;J<(o4*f{DJ&80rfB9
zYFnLLTm##6>&Q!!bvT_8o@ul$*t4zDA((|LD1YCQ)Ho8-$;;;X()_fX=qQLLK@hU!
zH21=8HcaB!?(iieAR6cE)Vsyh)6gZt$?MWY3;9pip_ry2FOXuUr%{l?(lF%*Y2|~A
zm*@yB`od7?Q%1aHnZ4}qIciW^8x+sjUyyfn@@+Y@wS}>TtR-vRTH<0d(v_E1VX+gE
z9CL_@6IGHGTMhbv+t4?@sP6{zXOz7YP~Ucr0~urp>Dwk2g7j-7&&GkPLby1EG=a|r
z8~HO3kXzp_mm!3eF$9QamfAc`qgk+Y;ztOYUw|q%N{(WC38V8HLPwS*Hck@|r@xO5
zZa5d<AP;%`jt+7u^3BFB4h7^hMPRS)JFv<B6D}<Mh}h5Y^ex`5)!gpa#;i@iJn&yh
zlr%?C;5`kS%j~}jWyzpcEA}j<qSlUWXXsMtz)R%<biyie?h>?!b9){I#~kFVdo;N*
z7}X~}!dxWtN0f^vzyhh7CO?!5@{`fX%@Z5M2i5D!PGFgZAS2hdzk+>M1OQ_cqmU)Z
z1U839ip62~o9*D?X@ail*CZr1>`-3uVUje073&=x<|c{Kd2-BQC|+e^&xi|ol@HLx
zPw~L<1B$Y^JTSFO?_klXRv6*L@th<^<fTgo^m-6BZ~e;<<^)*l=>e(QVz1AzU|2$e
zY#xEN49p}jlu&m?Uad0-a>+8INhUJ}kT~KSC}Zx1TwJL@RWxgf94ttkqQzW*)pXe)
zBD9-BH^z~EtV5P5DrCiy-BmNjYPN;@wow4*ADTlERekKkM6ZNXWoPEtROR*ZbLvV>
z6`PJ&HcOZbSDh$RHC&|XAhCQh#xWa0BjW7wm?AO9LbB(<D{S)Sqz+l845mWeK2KrY
zHviV3%A6{)_<S`Ht?4W>XKpPcdzE{2%^2r@k2Zf+A}bS!dy0U%@9eXfYPM<0g&~4S
zjwv}$xRK&*(U~x}&P8-v+${~8umI{ZXQ7b3YRT4=GfA5nta#Ae0^Ry;UDatzcWE4E
zlrkonWzM!d6NlM0MHZffdUTW6i38Uo+g?4wEQ9K3LjT6zoib<J`6Zk!x46J2jHyU3
zitM#WMLKYILtINox&xsP<JBmbvguw3>GH}FY`W4i|D0mtNxch7eP1Y4lX?&8!4VXx
znX>9ZeK^A8J1tw%lZWGTM9IUW2YUNTK3@%xzWiRf)T>?`J1aD&*jIoZ&%^d1*v0h_
z8t#2*+z*oOJk0xOcv#K1s-ZrB@DLdY6Oe%lAe_<;4UhraR4RgFfWlEt=BvSR0vMsb
zH$pgWKY?Hu8VD2j69{+NY8wsx6KV9fnLZx$C!qJOG~=lOKU4ukVPiGK4Ut=uq(L#1
zhGJhK=7BK;!Kh4F4UCbz6_#PGLW|xA0$kEEn6QuVIEYszrlCFpcXrcyo6}R=V0enm
zl-wz9Fx=WVO?0R7qN^5H)C6~iDmSMP&Qk6(JgVTR8xxx|Y;}=q8K41lhC~9Nd$!bI
z8sqxS(>taN$CwNynigmR9Lo!EUx-r^+%I$=Q_ZnTYxpnBeM_kx6Qf^B81XtjXc+y*
zSQ2Xjlb_!T{P0^#X#7k-N2k&zK2egHO5%C~$xPJ7LX+3I0xw)tn7o{0_)GQi(>S`2
z*MP%gWzzUx;OPv7^z8*6gK&={&}4NfD2(imw5s~$OH93FKxYc<5)XHI2Ontix<b7R
zr`wvPT~~Mvz{8y>t}9%>xTh;<^7?~^gd9kito%_}TKMNG5N22@_<gFBx6i$nSE*0O
zI;A!08rLWu(o7hxagE}h1EGO%Ef2z%R2dJ38-;aHt$KEYONo1sg(jsNutK-p?eQcu
zg%veMcaT$DQI(2xQ_zz4n+2YLZt>YGl>%?E8pPIN@TPvpFIt+G-h*3V?|>~?an?H{
z5vLK_adZdze(~WdnnB&6GLMD!^cS<y(N<M>H1E+$f}k~+CG>mHTMC8F)S`P#N>Zui
z2YK_SWMFxe|AF!0Na2LyKTIOK{19*6mgr3%P2rn9m<UQvx3%AF^gG;{N~M%qpL$PJ
zH!!wT>sb9JL0cNtYI&T8sf{*Wky=H}nYjD)BuMnK1*V|UUN~{++UqTWrVIgtL!cu(
z36T-V{taI^L@?{xRTp?j%;b?cc>jhP5OZk`c(2LgurmiMbCnQHjiZIUzowlc;PJ8m
za{OOkNTbNkT-fc`^I<njga;tZL6ChPrh6xxZDvw1RnXlLp;i*Gm8~v{#I7Z8*6L1H
z!luoFtPV@umzb~T*)ZLgT69@*ST-e>6KuB2b{(?J$qF0S^;6hHme9tglBt#3(JbW~
zr}k?S&j6Qj@8YhLMa=@2p-}3>7gXviT}X5SL%9<A(9WNf#EFBu=M|n!s>H-{s<Hx_
zT|cdnJcU_-3R7vgQB#<eSYa;VBZ7}3p+~tPo&%GGcGx`YR~v$nHRreg(v;^B%bdt4
z&LgTg`(_q3#d%x{?RR7+nOy~MC<xA_#4CGjynDd87tw9!bf59=dIwK)@;r{(IE;F+
zs4<qNpbmQAX|rtcG}HmM6_lE%nwCC^-@>TW4ELl^8sYj0wUHQ$8LtbI2KN)T^VoC;
z@W6fo-BBg!uL$%~2sH0Kp-k~VD-`Pm7N<5A18QDRA`R+i%(8D~iagI~!r-8)p@z4s
z;Bi%6x9Tbc1pGca8Y(UrO;!ZR1I9(qZB(nbYPfg`xTw5f%EN61?wa!CQTf`|$iu}0
zy<_cV&{tTlxLVA_#mBqzIL&4>RD8^X?b?lafcU7PRM&DfNCMnYlsdoy1w-L=Xwe`E
z;Dfl^#!nt70U9tKuDfcmgm@pL!n;pHye$ts1{Q)%LDguRhe`<gu2J2{?nS{+R9@)%
zqJl{b1z#_i>w1uBZ+HO;Y5cdh$bb>y&5J6hv?46(l4+Hp;Sqr?VcP(bhere)VdB=w
zW#EWa;E3U1D^^H5h`MNKc*GbUyCNzNj~Mh<wJ}MsSW7~8nYbkQ+CD<tCKLHHth*C=
zJUkL)v-su3V``A33Y&P<7euBCu1j#E3k{YORO`x-I5io*;>++zrIYg&*J<trFf`%4
zg0WFm7kIk;3f9~AM?KXrc~fvTd|hM0@&>^oxH5-^$s4eTIBcEdA@T-z8`{xCHC*21
zTOPSJYDQ`O9XCa#+~+%Pitvl>-@&cp{+t~T_IEVFvfnVMA-;wn;hP5&k2RiK;aq1#
zLt_o1vCkLs&{(4z`NOqW4UrG@bU&{HfMJLqxFPZkgbDnI0`OQ_-~&vm$z%#X@V5r-
z&jYJ~{vf{GQJS=7Za=f)B=ZhlzhxbNkai{m`Y`A5z#7CYw|##$OaC+$A6YaUM#0?j
z^0yD^MW1y$1DQm&TfL6-y(oh*pEDdUWIp@Cf3~yCcJebj2cAKI2&de<$-dpRET6n7
z-JjZ;r%}AQ$+W!w_3N{(S@G5Kg|&m?`vwV?2lw{y;Mu(MbTzs+p6tu#mU(8G8Rx;=
zoCWV>vA^qxtpmeiaN0GZ8nI-qc%j^spyW9WS#H0OYz1N7d)2xO_bpiTJ7GWf7ju|@
zv?{N*ls!Tq<&MV^y3{(<rS0d%;R+*DQnPro*D(9*`*lT6*3JA_uUJ!16VV!O5IozD
z#9nC3OM<(*?-->ijv3c5@4uLhWMqzdvLoIM33(pp^mD+9SyvAeWM9?_rq1o?nMA{3
z_N}80v_1B~8KjOjeBx%K633gm{@qhA<WrgUaVYA0itJ{Koz!~V)udPno(yZay#<_k
z^+mqG$k7@XV(yN!MK%8<?x)sJYZPm2P9#<nMuA}gVJ3^>?2=iWSW*{nm12Ik_~u&i
z`gn0<RCmrMiJ~A2(T=24l{M{16u$~m{zCUwoY8aMp=UH>X2(QpSPN(6Bt--|KwkRS
zt-kbcMhT-E*{46UjF)y>9!U@_-p4@6$OKqfWq%+>DO1zmz*}>kt@g|yz<4Ed<BrU?
zI&UXQ)a_+IoLQQX;ZgmwK3>*vNb~JM-cBVgbu3ellWfOXY#D31%<<L>mn+it`knmB
z@_o$nX;G~ulIh_Rm=7o!@f`|s_+#q6nQ4Aa$+wxZ{QP!~zO=vN1|)eJyC%NUmYb_^
z^CtW89Y`Ky!^r{r&rfRJ=CTKwJ>ZWlYDLZdyBD=`to%NTqiXnO@-<09)>?HRN8+X9
zI!lr`9_dUrzZ_Rc#nI2BlH6Sm_@kny$mxeyjr_u>|G(i<<nSZrySex!m-&D4a@ViV
zjRVFNc-q~aZIhx%6364dktja!vbCMNzS#EqrhE2!_YHws+Vm(mfc-F^ehbvmf)WbI
ztjfKZhzVQ8|BtLJ$fEvG?$^87+jBf{XUQa<uewj4oj)e`omaOPe+E`(w+|M{-b>i>
zZkCJ(uGM+?_0BBeZ;f1g=Or(e^}zpsWa}*plH&*cB>c{T!6e*-L3esLOAh}g@%NkC
z@gIM_|9kuR&9xU{#B4ud(IAODKZ%EnaI;~H#Oi*D!tEXZz)QmDpl&~Sel-5(j;&XB
zI(1h33vRmU@wdm;Z|=xjdOQAB+}nD)-o3XwY}rq@j8B`+CbPHu1H6|c5r5VD({*n6
zOMkvk7~gF#ikZ7*i5I(_>6Cx*AMPPgLvn!{Og|D9EM*ZIu#1nJyC4aLF#I3vSKDTP
zsBZS-R@K3=i^1XGe9yN1FTqW;KE88^N`De=x8Ah33wIs<W|__j*1pbq{)OlGR;eY2
zu4O+&{u}>0?PK@*Lns~BUV4ew|KhXF^7xJbtk{Sn|JZRyrygtvywOrr2M#qCTgs^N
zKH}v12qomvnguNK7qQj-=i$|Z7kOLsNKYx`uhm_K`}u~s{4m3omUEl^HBJ9Gu{$Zd
zJNFjfLGeLy+8jP;o*UZ@_}p*4D+|S4Ih^Z`h~4DVe)`-o^xoQ(&KY|V({t!<gxKSW
z+~a91&~^V4QAHyaxKVcaC5xC9R90ukV*dF(ub_xxYOKVX0}g-pBHs(BHZ}X$@utp#
z_`A2+Gs2i%>v*o=DftpE`Jr)NIDyh4wx|3*qI??12F(G7-(vO@F{)W<V9?S6w14bA
zv^&nZw6uQnS1j?j?3S&lv+5lJwuH?p-;8t|?gR1U*}GXTX~F*Qg+=TkVoQI)zf3f?
zn`5euPC1Jl)U_hzD5Erco#j=L^?U)=Ancp!z}UJN7#k=^TXAYU_qXEwo3+2G(*X>#
z-m}8H@qX6)iqpICzGsM?$i>TdQhn6)en9oxM*E>Q^VcoT{Mq6qSX&Hz`UCNcoBay^
z3}5Ljz4n2t)U^&%l024MKS(!n-~HqTSG2#&CU_w<a#y6WTTDp~uGz}vpu#9znzk>l
zn!|>#N(LxwS7lJcg_3XzN|-@INHcMc0X=vsa)1#mm4gbSd>#ZflyxM5!l@*QcJfkE
z2W!yWzyY@@mBgSLv0MzV`O0;(`Vw75Q+i|rTX(yM$_-&=5I+?a<RFu=Ob$04%ap-V
zMLKVa+lVzJp&C*}(oPjMX@NFh*?cm7OV(G1Y}6X+pfNwsh~r1NN((ZcSGDjCb)~Xk
zjh4GyiQ8&QVo=RiE|wb4(M6!jqjHu0il+j8^FWqI6-pZ~P5_kzmkEA`E673Sc$pmD
z(Wy!q>;NU7ldyAh5?03#lF-#H3Yt5$M4>WBO%&=trl^+oe|>5|^{twk=6*5ogP2A7
zf(dz&P*emwSzNc#;hr_>>H>BC5-T3+{?^vjzQ0htv}`t7Q;1cC!DC!040KYdp$K?%
zDxaUXFX!j6T2@sUyk#qe!CSUcvA@_bPqQTWF+ygA)pV3lmxj-#YH6@g%Wb@vy;WTi
zDzFNQVmzM@=AkmR(JtcSD?eCYz0Y4TsSJunt4Z7)4`$Kg(X-}DxBp`wCd}a@w(NWH
z=qY^4UYy@L-qH_7motEnLlk@igWL_51kp$ZPP7Y<LzGW~)5FZokJ1DbrvK<6N~gJK
zVwO!3(Ih_4htT6IToI**D8HgIkoddJf|d-_$py81#4yMkwaLIrs&0C*mDjR>L5(dX
zkAA;MHxx_Wp)7U<KYnkq-8no(65rcQe{|Uoz8wfiuDUfzBUFpSLLqCC!c;iK^3)`a
zyb?7^lq))ovk3L2Q5tC}X`HC6YBUaaE)b2P<opfBS%kXOD2==X9ZE}3txVGCH<O_%
zDS~NW6{lNhaLMZMVX<V?&m}3jjYdpfUAGKXPj5lJ+9v&5Hs7z)S5Oqqs%dzX+NHE6
z1S5fHR7At0w5p&HaGI6RNFYsWX9Scsg)<TkK-G*yR=Z?I;AmDaBY`w2mJv|eRmxaE
zZOUYLruH>5CR5`A8562;b&Lwtyfj9@YEc(op&6l`;A^cal0Jm(*YjR7(|l&u0!H1F
z0;`$*px90&_E(5=04VdVYN%yTkB3UxE6*8&qpU7EC{Ti?05)ySa~}lpltQl7dbSoE
zJ4gl_Vh7D@Gy4Fa?G5+i3yD6^VISTiaby1{vxd|3^&@|I;_hu&07ndy`8tVV^Iao3
zLYCK|cN;G~R&7ZxQ1%zR6<B|g{hz%)J4IT7sJM?c(Nq|XO;VT&hk|`r6HN`Lur4AM
zQ?O2!YX7e;8g;9$PNLebUY&3i23}n#<%?44XQ}oL>!PV+5!T8iz3^-@RCP_t+Odk|
z8VxQ*pR|51RZFxkGG+I3U7%Xd?Bn9YUyq9#pQ`Gw!Xn45EaM|Mv~!(JkndFUifGO6
z@x$dJ6S7~`IYGWcy-tzwT)|VNJJs|Q`SMjhRmLlIKULgpBtQ}FvL2_%SE$fM$aZ(}
z!BXaHc7oxQSMj7lg}R<JX|B>2SzFw_hd?UU{uHBH7!AOObD=m>aIrRGwQCz<lD8>X
zwUOHxU8%R578R9nRXV_p(J7n4%@OMH<TPiivW}ahQ+1P@C9G*MHw#<pIX8!<#}U??
zt;(5hj!v&jtp%g1f87{nJxe<QOl?lTmYh)5Uvy42FT6QYMSDC1;93z-Tn1hH@#s|%
zGq(b|cFsUGoF{{LRVM-?ixtW23#wx9z;NDFEpvsHd$m>Ctq}DTI;{}(_KY^D22O=A
zxZ2K$@5Z}RLu2*3@lIv}oPss~om7W3x)V^{wBb&CnD4xG{Nf+xyR0@`bN3W{(CVK0
z(ZM=p9rRD!uBc`tgQ02k#0NB*R?k|%qH6yj0erHiPZKC3`-zw3r(rnX;3@5X<8SWN
z$>iO6_yL4ap4wUv)bd#eN{uAei&L4oYB=cYoAm<ru5WR{A=~bfPdAL*^z^jxgY`lC
zZuTbA7Ph`gzcJVhpZ_)A|F^UJ$s1r7g$sA<Euye%KkmHXwd+oQEjto-r44Dv{EKS8
zb#YZKeJ398-P1~t>5s%MgC;l|@~h!oixifikO%Ql8oGYA+UF_x)7RtuYQ>_FAG;ZD
zqpb&veH4e$aodh`+rd2hYPRuUl6}9&!qp*jDg_6k;OYIM1?OZ{X%*s}DMUxZ3bqRS
z!t9|>4SV-QbA}F8x#@z8GSGoLSI}tLy>d;!9TQ9++IFo>6=>(Ao)IlOSmg!L261)m
zdIOR`ty-~u{nh=ND5^HOSv6hAK6X3j`@0%VrJXgvF8YrZIfhps?SXn>6LXPwlmxF*
zz0C3FIMF(xs=Eaghfe9mGrMg*{=I^tw2CxFe%4sj8CSk~!DC$g>ScM6^%a(KMIlgG
z>eNKJdT|s05!nO%WQ~-$5S*wRw}zL-El0e%;6NG^I{fEav*m{6!~lgcwF7p$1`-&d
zpo!N7hylt6^3))6$2W?2!jPI8pmZ=!5wdLDPLcOK-lj&E8#7bH6UK7X0ObQL2h@ED
zg()5K5DRF@=!h(7aUew&RaQVda86cGRLSs+T3qELIjn%L6&b~wJWL#<UKL4m_jzbU
z{R^)zH}H>w0>2t~+Ra^SdzwrWzTST%NA;s7rnPO-J~_1M^Mwm>jYI^(A&36@7Zy=e
z_HZvTPrszrgqgi(c4p@UIM-KaSI_t9lXI0_WoPMZq2IpsexF_T9vvfn3r#;G>wfGe
zsUJREW#gfvS+|MnXVc>QOOh?4d3oV@=2+z)5$gy2Nk8|BZ~y09Up-&8QPz5K9(q~s
zW@J7sDCmyX`?39o5;dK{0|`mud#PsLzQv><?ykpC9@f9NvS>v@V>F*njF7w(-+Uay
zfuA~L9cOP`u2g`On^}rXGZGR9u16d<%aXLZE;St9rIs_i@gG7r%M&t4h)4Wql5DQ*
zw_aJvpI)kIR3qbju^@@o3!-S{E{QwWln87wZ?66$w{7UgG3RdPYQ3L+>d*YZ&)zh>
zpyr3mLf(Y}D8+Is_S%I}%Io^3pwxGUqvEqa%QHg%t7#X0kddVPHnpPSYr0PQfl|FM
z3F>3}D)DYyZ8mqTr##BYFpC_j&h(mtqM#lnq>%r#R^;F|x}}%x2#n92?wrh%bLiit
z<TfGXq)Z0WbsU@=%5dw2B-qG!Hq+V2zxZsocrzibL7ezuRuj{#lG^08*n{C&;+9)g
z1h)l4#Z+h#*1kztZ6?tmB_oc)%BYKXy(HQgFiR$UnoY43w%RMH-ehj(dtD@=v3MGV
z1Gna6mRD}ab?73ji*S@YR9CD<=i}f1zI<8V+&QLK*tW4)XV!UnN%^T}pg{}{yad2U
z=kf7^C?wKAsz0~R=ui4tipen;qXFh3gy0wu92v2(Q5hI2yTNO_ucd*R7%(XjvZ0w6
zw0?tI)3_wDSr|51L9*dl7(A=Nunfx}aCUoyL)}T`>qo`^Js5+H2~Ao>Y>s`5qomZ>
z{Dz$*XL##)SR59a?*@}6ojlcKrB9&hu%J6k7o9<x{24?KwzDWqvrZ?F3+>@XR0QnZ
z8R)lbCJl6woIGf6iO{h3l&6RYci3~#Vav#ljcbnKGPk(4IkYq|q6kdQRTB)DUUP%}
z^a6t=CqXu@2aKHzE=6WXLNsANu@re~bChSe?w8QAhiab3hZJEdc^x10)n)1y=9ms1
zAsj<>SMvx4PpyflB&b!Fjm3-rR^Va7R|i{CD@andLb?-xA(@;m*oXr3m?<GuVc;cr
z%&Z}3wql~Q#x1k-#1N7YJy~Rg#)cH)UK5XQBHV;Ha$|#uunl(*u}i~=ap$QP&cqO&
zK4k<N&J(uX#3Ey(c~a1hLVX~C5DA3FMw2L^NpcShI8p`uC}!*_?h0sK8^V(*;o*pl
zjVDt$ekh<(;JYb=D#twnPjqZdIer4cxy`e}2_%#o8`3kr?e0Q9!a|=H`~*_UonCN{
zeV1bDdByh{PhM;+Z@436V_~w<d4=&J443bWFamhpl4l^*8Da711AOF~7A#IffRl71
zL4{e1%emh4{E<DakL3Xg^IaB>Gt4xLt^6s7W)O^XVGVkdNR=OHskT4&(>QS7niOO;
zE1N5`1agikwiHMb<uN3Y2`uz0cMbVN{X$-3wwk$Jz#x9O*%AWr2|EM}7S|+1CG}af
zJ^SZm;pPDxmQc#F+g38oXDQ<|tc+@i1d!7d3l;>1!Is(=(ChJP2`q7a!47f00kWZd
z?YOm=>;DR`pJRLM^?#FB#ZdVq{f0$uA|q#`xrBwru@N?#E5Pa{YAr0W{g7uPDuJ+A
zT%$<%bqN-mTbvEAV8CMY6Wq+)ES|;W9(DQR)SAWWU(iqTGF}!B`96PJ*u`u1>+;S1
zz4%0})33YY7*wT^qt5_+%TM^Q)Pc<s>_(2Ea~>Qc5M(xN(ak%lgejvrk}F6KC9!y6
zZG53V*s@w+if;_o0*ZeCD}!4uaKl(%s<MK+EV>W2T3c?7kmd#Uk40)??+37dY-~B9
zWlwztmOZ651shnP%1)`3q_4r=uiWNf^9zwPTQF_La!O#URBCUq5yeP(PinS}g)33v
zq?D0lP!K0I1;%3a46u@#%VIHlkuAc3`hS%NV5;oqKVa0Zvb78iWWw#Vu$UNN!p7-<
zuvm;lO17&A9o4e&OGH@5=SB?a<f17KUQS`i=M?)Xv074L#KOrcm60d2FCtsENnomD
z#Hq=Jc8qOko-46Zan<Gp675Tdb}U{<Iae;?VsVnUj7E`)XBj4Ndsk~ETFpXCx5HLu
zN(Tv|M140F4<OhOr`aqfnb3cz%zK&0ktxg+8Edz0g_^z0;qc%3)qyH=seGE2Q`$@Y
zv90}Rfp@#?YCAlWwB$|lpnRuhi`GmS0V?HCRsfizs9VZXAz<>NZYhgJjIrSLGFdDT
zry}fSvY2ET4qh9O#o|?LrFd>^3(a(#xE^7fsg2zhy^U;mMrwmbx{LSJjI=)xiFSBH
zg2hia$l+A2e<^eTH+fthm8?08{y#zrO7nYtdCl#ewLH!B@f+HAO(jL;EfD1~h5RT?
z;?yQt`?&;Rm66iH7a`%hFm)I3jvZWfBg}GO1L^(NXg%>Z+W@?CwNXD%+iC+(7&@v{
z^9FB116LZF99qH?Lt#d8D6Pibgd|UkLr{wiU#F(UvFMpW2hq72mrnvN2Zd%eCSL?h
znlq|u9Da)81APQfS^rk2$?`4j6#Y2~DIGiL-+!Lv|Mcd698HUp$aB_o{KJ}7e^OZ)
zT|w*dAiGCxXTON3CUjTY#P%|6o|U<1DdKQKLJi3bt2S-|SRRlW7#r?#c{K#yC!x<T
z0s~I?=E>)=Ej1vXC_K<}HWE!WS<I(GS&ZEfe#p-JTNkn{moS%?`{AHHPv~<r!fno(
zDT-Yfb{L}&&iv+!4pdn}Cw+<Wk^m27h`ch7?`GhslK{<&z50WiDv8@kK1{Jc2t#&C
z7QRoCJa!|@T=0{G9M)?WB)gE`ChcQkysfgpw#u#=rnXfU!akQic|!HMNY#n5g#G}G
zE4EC2@kIUroNx!FJ2jy%FT|%kS^KEim(wm}S%P1Fm8RNGH;PkhP7<=P&goD3xh5{J
z)z-VZcxqi@mbAO|NlmH#ccHV{6ge@i`q!Q4vefF!NB^>R<O4zTezQPL;*a7-$8EYl
zn8Y99o={y`<4NZc$&K22^lCy{VS28M+&m;J07-jaUJXhhs6&`t3mpO0W!RR>c)|(*
zVYLkws3BQnNVe539+I`v2JV~=hG1s9UsB)!3K7+`j5n&`iR4wYS0dygiJ-bm%TS{l
zlo(LWu}9+piUB|^qmycIo`4Xu?IHUdJWncHt+VMQ0*ATZBUa}jn=>D|H=f86L}V?`
z7Eptes%&Yga5M$*u<j;O!<1nmKwZn^fys~%p!G%^H7Gd%rP2A|LCFCqj3-N|VR;5D
z=jim|A$kV#*@O8uH6$+rKhyGz5p_n=vB1$W$CKF$kh|>99jYODl}B=PzVUFpDQqe!
z_x0>>8eCNykaoGIQh6wu6q)GpDwSS(VtaX#M%4=x+O8XJU#e2RgJ#2`{gn;&j8ddL
z>@!N%AW>PYm`be6-d~sLxk0cI$HT?F@#ubE+16*rD!z_9<C%EIPg2zb2M&E%#O^H-
zlS%Pi2eviU*v*z^Sx#1`SAS0lR=G88lys%Y+9-AuXGLCRf2aRQ^i{jc>UM+8D2Qq%
zHHLE%`0K)A5-xj9qsCpN|HNI_t0)&S0$#h*#<hGs&aABIyr0I(65V!%_nS8w@m!az
zde{}1a-4TkO(C?r{Y6_kjYq>vt>xH=tXcF*=EgXBZC{9<z0p}2&N9dcEW;$Pabix2
zAEJeH)%MX#oZi*$t0Cg<B*iAZW5M_61rNi~df&FM%`#&`R@3qzC{Ltn)%6H?@t2jw
zUb@MOB!$IV@5rT|VC8Ume{t=*psm!(n?m@<we9R(I<3n0trlN;t;EjCWGC%=Q4kO>
zqxYJXecN*Ik<uyi$catp*Bff%Urs-b^28&l8HFA(zZXBo+SHj$7)QV8VMnbGa^XC)
zj9pZJkes)WC#$-R>Rm*~i0bYCjvI4tF7>n~P>&d&mP`FWxs!6K$8Fxvnl+pL!YPbt
z?T6cU8V-)f^>_Z3cBeasf{43CIqW1?FS^mHFTUGJ{ZNkY$Z|8ucRF@8w>=wuM*v#y
zE}WAjEuG8BkXR&1qU4%<SQxl_S*P}ENfL4vxOqxsLPF~iyU~UB*vgjvXXhwu@AkuY
z-3hzFoYU;)MsjEr$zi|94QYV<v8lmkv|nZ`e8h6-OEUhJ#cceiXgTk*-Rj}H(>R>t
z45H-sQH6sh+cFjXP`-n}Uy#gSlfk#mhxZlaE~@)r)2*Ls`PbMktwnw4V#M(jYdOrc
z=R+h#Ye4^PL1r)3J#{f;1G{m)b){Gq>-LHuAEmqMae04>%~kJ}{O?zzXK%)6Cb6e4
z(<gEJg1&5ikdn+vV>he|DfVd#DVlzfMC)ns3pb0B!+OeaQT);=FBA3=#@Y{dUFDLG
zLEpz<I!@gvIeCh3d`$9``F~dc2v?Dr0k9Hy+Ra>Bcbhm6KKqZ%9Y4m7+j_UTG;w#k
zebJFYc1XAdMAG!vuMil6L7>4TXI~sbqWLtVZ*Bq^-CZxQU#?PgO_%9*r*7V6|1Pg)
zk4Q`3LVHg_l6X#fO&2DzKbOBLR)C)fdVL@XL5`2Jl*|@3`U7!UKT?AU>lJ6mi5F5Y
z+%vgzq|7!6_UIzYLbn*GF3ju1xyQ=ZMaFX$Q8K3yqR|rxQ+pF__{H(oY_a9wFIQct
z$}G-8hh~@(cg+A*26$WD$pIHS(ql{?6y=tE-jjVmLR$X8;1K3A@}p2)88P;fl->Rq
zxH*SIK}OGqtc<Uy<vQNt1P2XVV;KbjUTGnD{ZPQE%nE?Cy%dokrf*ZC>YKNiaL9_x
z6|Q#Sx|3UW5b%A}{3rMP+l08D!~WqTC?o+nrK-NSBh(9s{k6P!x22Ron#?;Su;h$b
zN#anIxZEV*L3T<gN@E-rBU7a_6Y+q_1{z4w@~C-{?6W*<rqzVY;a2BxX2K*T#dsEV
z+4UmZ?MR}`{3v?D4+Oi)C;_MNUy#i57)ZZmYx<4b-|EN)hrcw_fih!RlO??@_6hsr
z7|6R)upm<2HE^rwoJ;yhz!&UiH4O)A6TMcOD3pan6z9UzG2>My3R8N90PVnYp18+I
zFls7{m0{M^7%QY*=Z%muuk67GcaD4^$riK!v9^T15>mv1yp)`EM*~c0a(B;}GrwTh
z-ZsmV0{c}_K6ySRNq#pqB6gemD8JxRe+(6vcLT+%q8vikCD|3RtX+~WF4072CzZ^5
z!?h}kcL2peI==@z&Ft?4*pd7skoq{T9ywlMK3!Zc{{8v-XK?===}wdo%OyLU`P8~B
zf0n-=<aZ&cQEcVOrs$4Xa$b1hP0YijiHbC2@B~y`4~VLFT6J0A9;*+hGD>6O4da04
z-q|barxu@5i335JN;FC(uo4yNno87#j#OeWG8)auXmmx!UQu<b8+ns{2n^iz0><ke
z6Km4EpJ$~RyT&w1>~(pehvXOS2dx!}#;KuNXokb;B4RB0C%>)<mt|_6Ga3<{Z%T+3
zdRTOQt(j~!x7!4)O%+>!tTAN6CEIMz=Z^c@;0_~dyMP*(`SASe05%7M4F$t)oQpmj
zzN9UsPFD*;3`K_O+L7v48J&df$^>lJoFJaFX;BaRt7nxw*JK08uJgoxz)FYsuE6*{
z-(<-)+Ii{2SzO0(TF7u+%!@4;aER|>tT$=j>g?F1ed{+oU`Y5@Czh&@z^aPA)iVgo
zfMZz|))-5w=7=aYteub{{dnCPY874{y+GPoaP6e+Db~@3qe|&0MqJ2Rl@-qV_o`Bs
zwBpSO58%Del6Tf1tXnu%#}2AA+-3y*hgB0V)OR?ZoO)tNiMn9k$eCxC1S+tQ?8w_=
z)2oWRH#zw~6@AV!-#!9c(S`G}_3%%UlLQWBAEB-y*V}m{0YUEJv>et>Y)lUhC$FIx
z_OS<+6`kXH3_<Ct`Y^D;9z%qag4r^!ng9?-=!nSNeuyUx_X_67pk88T{2CFKrF0WQ
zY8H@;GWDx~BbrQWs8;cJs?JcGs54Y%rA{}At0-}Cjo2S*IPzU$lO=uqp$1H2?G+lA
z!*pvXhiRW8aP-rE!U#7UB?N5KW!R?hEIi?+n?4cQG)6M*$Suj{Z=M&{^*w00Ag2TO
zH#**l=;5yp-QQ>~_(<})(6}biD~p)617gYd$|A%EAfjCFDnfe!qDfSoBB)<LC_u$2
zfHV{!q+~TAg8Kp`rbG)X!uk`cnp_Jjf|H53dM)BkmEjFo{5qj$U+gk~x%b=`ElXGv
zrjWo1`V=#PiV6K}oPw5YKC5xFt2>v=Zx)arM~V)a(Sq`$DSE8=Y$;EZGFbl;^wfqg
zR7*#>MY4fU6i>op-zwSA3c3|?$1T&mw}39*+Uk01!axR>sK<mn)nrMuhH#G&R_b%0
z)w*hok#<W4chC3=K{dLNa+|IkI8KkjUO-1O&z-DGFO7ZtR&y34^J<HUsy+6FE%pv1
z^=?Z|*cs-Kb#N1PykHL3p_8h)>~#?PQ@k>O;a)i$9)<kHz&@?xmF}J>iGltu>S9J(
zG8poCeSypME25+27H&}r*h<v868*8Dw%tNgNUNP3XBOx4pjqxIPQ+$${u<oHxzDye
z<9`m0zi^>V5V0g4k1*mx9fU~jFt)eT$E^*)XK5ic&a;HrAizMeyQ?9w>SyrtsNL;&
zp~8vAgEHX{{CDYip`wZI)j^qG!4};c<An+*D&-dKoG4egKS%{$a3d$s#T$%g#>Vqq
zBHUKcqBv!pOG0)`ll+rkAEZxaDZ%s~&B5ujQ3M?M9_MGt6;2npwi3Oc0LhoKeEU^T
zIgW;tNf%82S?2YIlQ;L|rk+kBSupKasg9^?!*g89d_l|9^sOIXw%NCt`<vBCaS}Nw
zz)ljWMd!PANl4dHdfbr}Q>8us#)H4UiHcy%D5hQ%nm7E%-~o$fKwA|Lc{<KLC=cjE
zrq(>vHaMMgPgxtK&m4{n%AFkro&z+UEJ>q8c*1F3oijWhk`%lGZ*I9nj$tmjSdB!x
z-Y0k+V*swUE(G^;pY^2*U!!}P5FD%}x5h0e@_ph^bM=c7exAr=@gSG8NeEe)gx@Zu
zE&f4P8fA$?QauVCqTjHOg|bGgmB5XzSZEvcSx$`RIa5*K>Nv%iZ|V0RVqBf~n4mc5
zxRxND*(9CrVBar2asTOu_K0tuOydhO*zL&CUWlXpO`LLbf}adI9tl~kif?Qf0eiU5
z#kO|{#|!2gitF5g^39Zkf0iu@yLEJ;l8RS2c_PVFs?-suR-$Z(-bINH#ImjVD7Zt9
z{ZVVgkE)m7I5J_ny1VO3SY@gZ=c`BA6N(Zr!o!Ix)Vo{Uj$c+DYsyEN|GyB{wYZ<6
zWKy=Uj<h1n6yHVBIxQyr?u)a7YbWN^;Vz%^r1t(?v$u49ws4A^2b{c1DK4(WrwM@e
zw~VBRiua?UU<F!}+FyIJ!5ZWC*J^S#Rg6;VVZ&BKr&Bj31SvPmdqB>&57%T;+mw6J
z?>p<<G}C5FHtS=y?9M&)5Li7cSo7G{iiM`=n`F#-dLGq>GZFs*Sa)Fv(=X5nc-p;K
z+jg5e5MAewxZ8dVgfw&=yJ?)$m7W(ZAqIyS5Rrrv_v@<*j+53-AhG>|C7C^YkVZ3G
zLf5lswwj5Vh<KViH*4!>G_~%L%h$CBPYoM2nDL@s*p_MlQe##)LjR!NNV{rFQJ|vE
z;AsP0O?TlWNm~=qVgXq)6QP4_>*{$#afKdo8!X%_EV`~Q=n`r_qE&@sw}wYK_DKfq
zzHMC;P-Z`H*}{>jyjVVZaJ)O!8x{rxGN=hSG&f-Gqg`mXEEKJe#{U-LqNG@Oyuo#c
z8STXQIuJC<wy#t>Z1Wu0xZnt?MyxyZ1?uPV2nAE9Qe&XT6=d2#ub3ovK$eJLF8X7j
zlwq8flq?5eWDj8>7$1m98Q`Hjgw}(;M_~Z7ay<~UV6<%pVq_2Mff$DC1q{TrHD&|8
zXPcY)V>HDuj7>_)TLuWTMSswX^w%5Ym`E^m{ZWG9q69YVt2|t##iFGxABfYzfG9(v
zZOZ;$dK)kAplqN&pN|>CYsJT)0o;F!_zl1kHP2bGH*l<1feY3WG0<B_m8m=BY=sG<
zs$uN(HDI_?`ZNr{pf|$=3tDZL{B{>$%zy)1sd^<#%lP`ar(Ry3orgdFfBag_|3e<3
z3`QB`SVsHky!-9?#y+=p*ArdwW~QEx&?^^Rh97mM@o&^io?6I_g1FT+txtvVU)97t
zzPqGqCbFD~0+;cF0}mZZaA*?wnqm3IGTUxU8_7R9!Y{oE&Fp++B`ybZgp*F1*ml%%
z893Vo>1-w+vZ*t-uVsX3ch<gsU>2M(m@zWPcA6pop``*Qf+FoTAKy^zG2ae#Ow&Wm
zx0_eOKZmqks8*+dA{6nU9Nk`~?RP8tCFN4XC@~4a(H2Kib^*iXOV#zHcgbFyTU5<n
z?8DpGagNI}#bmkH0KDt6H<xdF2uW%BA(<GEmT}5D?Cz8hr21724kG=&3tGx1JqUx>
zggQnOl@Y^n7sKv3HR)!ICMBgyd<R(WMI9hh%$C67SpIh~K2P#Frz9MIZ-I+~)<+}N
zHPv~|>YqL0LL8ZL!&t~XEBr(~KWWna<14O|tU2yi{6QH+w50X%BE$#AC^M;RadGS3
z<8RBrzeK)F2b2U-n8*|t%=OPf<8Tx*nQh>to9*c9XU1P{?^qrwJBz~;qHS$`?4;Y@
z;O%#~Ch;C-uAC%4>C&ihfYU6EF5iK=SxNFkndCxN`A}UQ9Clj1sFV0<_Xut4?0Aes
zCYH^lscVzTnS2y!E8wsd#|yF2W~bZgexxpEJ~=bVzD(?{fVe+^?3ub#(W)@_=JN4^
zaYsrrmoBn+Xq;nqoS&$Bj#zd(d7Zy~>XV*s)YxueO&jiKz#y0MT0M2!__W`yG5Lm+
z)hagL+^z0B`f6GHz7cb^J4tFmRhOTI4Bgu(wyi=AA!TH9(pbGKu8p2adL2=(A(p4q
zzy1CV;A?Q1@UQ{d6?odsTw8aVN*iAL9|;KPr6#7eE3w&{cBkLXEQHaJAP^YS*k8YA
z22@by@Pf&=Z&Itw`@HAF0E6bUtJ&M#j9lf*mHDvi{kppAJtHgM#eI*EY(~a?G#t@S
z;c`o`(M!E7$7q9zm-kR_?4ZBUTtI+cyp4Ub^#~58l#q#x-u>a58R4`|vg<$WQe6Jm
zCdmtq?W<(7@g`P`f79<eBJ@*_JQ>D4{ky>H4US0-%ehLTBsM2@>V;X}9d5A3G0s9i
zH@IB)UgmAa$u<sZsMaV5)bj03U<ynCTxk?5!<aJIZfQb4mrHX4HLhmbrmJmaSWM-k
zY`tYV&j(?S@Fpd@a=F{M+~zpNdTKKIdAwb%aCW*HF>RhNr{3f;3SqpaG#tcDV3@x{
z@<drjX|&Bt0-hEHms)s^$u^5GN~n;sBoOElu-Vdw%nQl)<umq)VHQSNGVjW}Q)>{e
zHMN?AD_trUqcYv35vSD1QA=7ienL$e!!m$zTv;v*8KXzt9B0VO*17yjvxnbPsw5ns
zlu;*7ILGChcDdLX`ZS5r&<-dylox5PB=|@ZwUFj~QAm2AS}4!B2_q^C`!=_E(6azM
zM*kxtXpWs(<}W;B86f+0n-DxC3F7H3p9?iyW_y}m1`o*tzxcRpe2u!&AC9R?Z(^Ev
zJ_@9?_6+CLf_GH=9|}}6jT+`$Bc!NQHedFTVf+<GDb5PWm(lh3*Z+Qh+bn*dzMo{+
z@;B*_`aB7}X!2^}*F9-<!1U3vk~^pf8Jp+uO8AH=4bm)($(|ICy+suIxL6=lUxQ9$
zSQf3&HjkH*RSIs6mZ3l+#ijNY|I0rsi3fPOU274yRvThpv&-2h8DZ`Wb!`{E*FxKz
z)``9=Zq{1gf=pBRAg$;wU$!6__BL(2P?^c>dM2}*GFgR`b`dx@;&>=jwTxm_*Di8-
zT_IUlP3yP`tAyN7ybb>8McdX=ocT;6<+kD&H%Kd<JjD4pxV~mc<;E8f{Q;wY8|DOr
z@fB$$91R&nIY)tUCP$-%G^Lq>q)};1EYUX*j-Es<(a!Z(tMUNl-NJ-Y!-yq<<grnf
zc{^1GFm&@+(PPgsozHOWcZ+{LvkcL(Ct8qQ1oLS9lzCzgnYPT4uBn+tYMEc($a0XX
z+p-Rr&tlsYrX6z(kfYJ^0CBDWSf`yJ0OlGZ(&-2bMw>u|lG#WMGX=Q9;HQ^`UJ&{q
zPnZD&Q6Y%s(9B!akdelrcGl`Kip7-JC1sg<TGCBfU`0t%W2KMRG`ZKj8^;AM28^pD
zh8K6!12}7ShYZAg(204`tYHR_?4jmetfVJh{@F+FjcyR;Y2@wp6kY&o?t}FkL5t6!
z&CrI}fc)e%fHgs4s2pFiWSfE@5`fS2TRBSt(NujC6eLLst!6T#i^WNyHkrmN@wP#u
zB(I=2R{EA$mRG1Ocb=amAXze~Rb(zKmL!8pGQ)2`tK{HzQ{~5EaR^jvGA9$mY@skR
z`?rK?G7i6m0W!`TR1%r}#ge>1TG>Jpc5@LR$Zr6GVmNCCcn7Cr)zs9Cvx8bhW^}Pd
zc2M7v4Q9=f{DDjt3Zsh!`2(?w=IGZbk7cR4H|u%_HiYGLpepKUt$$QRO?cI_KsRJ-
z&MzD1EZuSLH2t(2<}COyCmXWB+BzHNPVQs^{883XQD4yBMi)6zrcYnFjV{6<`WTv9
z+#;lR0FuULumGn2O$$afor$R5>QYxvXCjE1E`-i>CIYz!$swK2L=barIrL^H5zYfh
z6zNbSg7^u7kj@$+h({2FbO;bZAldUSHmankcA34e{d`v4Z)L@)4=PTTZQjd@a8{gj
ziiWT>^;7*2S8vpb%uQ4+NS}oqly}<#IjVFZ5^!$Yx)91qMTFq$BB&-65x@|Z{FIZ5
z2<JiByxwiWQ@s682dY9=A$Ly?`AwD^Y~9>&;wJ4<gN{>b-!v8JXbB1~=|m`k2(&#@
zcUBW2tw6#^Z=;GJ-n27?>h_!f!RhIRg6MvM1M&JpZzA)0NBizuv;Eq6zpH2-&O7$@
zINJI;xQt9+F6<eLlQ#6SQiyVe^e&>nGY8*Pp6UFEb8iJ6oCkN^2n!j8nD)>^%S<}}
zHHVcUrkz!XngZ0yjg0>xi2q6}by@!FUa7SmA~12I<LuvP;e3`4(VjnV-Dhw3u<QP2
zm(|pyrzHoSj@<3Eq@kpN>QQ5{dUT$Oa!_qIhr$UxNcRcS6OwIp<AEHuGHSPjTef)N
zM-_8RkO-AgzMTlZ;4$r8F>)X0y7uH-y)~p#ldu1b&*_BPPLe>|E+@&UC7iG9>qf<k
zgpksSU5)2U==ET_?Ow%F85wI2Q1$M)oyxJ-NjajVieELzZZ^<;<dy8D$>K#`s+fHP
zJd(V*%Ol<4+Rq&RlSx-rV6;qdEH~}6zgjA{gRT=|K|OPoDsOa6UZF(S$_~`N-@oSz
zq6_Ij5AC8Xf}Z-yUU^PClH@m()u$V!xfXa6g2{s4$5d$`d{i;&jx*1H!Qfq}aIIDW
z@xYHlJUeRVYI8&XSy#2S`Xy8C^GeBSt7nd0G&$X;95Ii-lrNuZCoIF>e}{7Z*4jQt
zUJ}El3AGWW?a2(~u?*AZSCDJR9*o!(PUJp*U2gyG1%D8oi?YN=8`ff){YC1<&nBAe
zPbny#MsDCJrx)tcnij9=O{vW6n|!=Q6Qjpfz=-4p<I3{^ocj3y{S@ODE-)KRibEt0
z*_eJcjFRNVd%|8|7+mdlUiN~s$%Ova>Oca=-)4D|wdB_KqNwETWavCH)bYRz`%7^S
z#r^<>rUNz(rz#vyp%A=b=`1<lMbmJ_CAV<0x|prXa;!GgrCj4sL_P_zT5di~N`{F)
z4AI84g~;Z(D}^Feu5TW#XYc!qV}C_9jgG{3XfC8l-&yc~4sk&nrn!D2*4$kuX>JEN
z!z=rm|K*=6`%&`1n@`Kl<&(&BMMurJCr8Z`j5V^>4++gJgw090>nBmfPv&6Ba!P;j
zNRkbCs$`cP`}G{@Bnvv(Ga^D>b@>{EB`bqHPyHCblRZ0kd5k1=fHP9G2*UtJ;U+vD
zDU%>+39-UWDq9}Pmk(Cdua-0nWi(#ZymPa=UXJ`H54?=lIG?)n{_&%cvQwYDQ|3T@
zU)O@f9HY<tq7rk(VL!5dW-5wfdzrlBz#1p-@|J1B)zoypg@IA!@i{Fv&NSsDDG8I<
z`Og1o=423sD@?)-9^956Bs@KR4o~HAQFmLS;-ziTC~Jllg~YlINyidYq2^L*<0Of?
zQrs6!izXR2&B8aD(42ev%S~MIQ28y<GU-)G45sX`oKakCdKULdIbe~<+SD_)+WfrE
zX8-*q?N{f%tXLl?0fn?QEZkK)$H!eSM6l2gpY>bM5JvB)P~nMDN2Rml;!4it7g8jP
zwkNj-;uXu<#|fZ#rI22EVoV!d45fSwL4wiU28ARSH7ifI?c=CYOb^BFn5aIuh8>R|
z<fjhqD_Q<uDP`qt`u{&W<=s*pM#l0kjm-i-Vmd_R3>&)f6-<>oieoQce{cub6a}L=
z=o(h~2BJU>{nw}BSAzetRf5^?q7<wC_Gzi5RL}J;{(x4r-pkOr$>w*tJGK@l&DbH3
zban(kTAi$6b7;f1AlXOjv&_83DEX-&RTYu}{|oxifEDjZ>k4?<wOUbksyGln`;P<y
z;$yLPZ})7wcWd`-@4n<jjEW*)h_$`Hev<$S7QzH~Uo5rxzM1)El1xJJ%j5I=G+(Uj
z*U!<9>C<S7o%}PIWQ64u=bSzBXCBxXt)iHs2k|izzx{$GO#bOB)QKbRzLWS!Eo(u-
zT^^HsgFoh*S>O!;(h~PP1pwW`Z}A0Q#VO&VV63n$AzGtitPD&IdFtX;0(ieie9oDZ
z&=Y(#$}^I{hr2x8QIqj1X!v+PrySQ^(yJ+;2s;8=4;lzT1I%2xmyfU}C>M_fB>3d?
z;vE!$%#GAj1IE<S1I1ixVD-bM8&WGvC<2)qX=nh&)HMKNt~IdrFj?G>Nv%kM0Ay^U
zApi_=9gC|+`2zJI7p__~PzV}erV$YobRClqDD5<j8@6;1gso9I9U3dH0jRD895v9x
zMvcQ^O&Qx@*66f}I2B_;YB^DkFTa8?DBnd{IkIQt9Pw1{nv{_k2B>Y(M;OAn?9EZa
zjWMDZfnm@Evk*!fgF>+c!9dsD1`IWB#Dp0+!Ek;vF0df>sA(`vMU^jMQ2VP*u*0_7
z0yZ%2C-g&Rqc2LOXOyffffBkVJbG7#3#hg`LREKEHH4>#Z>%wsQz*e|MZla<I+$wG
zpb{cbvR7np-7#6#k}i&G9PP6>uQL~r-Q9ig<Db)S`}toOg(;)XYR}z!36W2I?3H5Y
z&Pz4<9xf8*epjFBxsS=un3&5IRl`R+@Sa&XC)Q$#-NP~EbRyOmB|`4MrmyPZ@>O9;
zwMkG>#^<idKozZpnlR(WTCD_{bPA*;t!s4c@-UICyDoEUnz%|N<uJk0ewARTKvtk*
z592hUF!o}sJ5`_Rxw2rKWZ4!P#Q;rmJsr9PTSf`KxH~Mtwvj+(t7)Q-ZK6*VjZPmM
ztWU$+Ve&W=O@-R@04)A+pG`z0JR<SzAYc_csIh<SU>%2P@=h5?4=mlw5neog`?fg#
zIa>b2mX)zI#CsC5)Rxl9ertwSVrb1cJoD$4+$8r7H21Yk=~C~2Q-9^|u;e39dNhKJ
z@1s16$!ARxWWMW&1C5F32r7C*Bc1HXY|A<OJ4|)gXhAKF>D>2#ht2<Ko{fR#&FW~<
ze-eJ788h84?{0LqW1%xBdhbg&1TB16-FWrhG4Q*~23YiM{thdAqSs!T5$ny6v@Uw6
z?JBST9eHuXp+p|n_D5mORq>;Y(p|~0gfW~G*GjU2ku<Z_%CvzoT^hPpmaSg%OS>?v
zTDEW}i>|8G$zA^z*F6h6D<ZyywQCKD;YFf$<<@u;z#P*rJ)J=(F#l>xXsd_m%^r3M
zm>HC{+E!crJHXy9n5xHaqU{Qq!(IcJI(xi{w#(VmE$wEfuOBxxu^q1dysb@Wbr$fp
z7Rk#!lh?ZnaDJ`({*+I#rhPjnPxf&2d;LPgPMjlpmrm?KkM&n1j^zb+Cjsqs8O_CL
zgmLlu0xC-}X#Mc!Y{?%x&;5p7;Yu2MITzi{+MBB%7wy_8y+yQ+lJd=O5Urap#}2)o
zyWfvV$cIF`O`{6317_z7aBY&BFX*H{x?fp(%qB}3M|+vq5|{%0?SMxnUbk>O7H1;8
z^P;P@)Y3m!m&od9)G?Wn<n=fs5zoa@DUNB#EnA+I9%U`_lqtT6qI+dxI!@&22uoPW
z8~lxZvLu=KCU^EEbDl_6UKCq){W9AZ1(r%$^)DLQ8**m@z9JvZW`VOU%UrLE-PEN%
z>7F`Hdc~ol)Kncag5zpMS@pd-g;WjlOgs;yql~5Og_aBe0=G%vg-4dBth$Aqnq1BH
z+*5RJPR;^+z1DXXa=lai3xCJv{*-m&4|v+uT4|S}yb?b59~n0FV`F2F@0niSwtJTQ
zB_~2@GXi0f;I#MG-z4BdD+u<qGkg#fsj8=zR8<!IIJsMWyAvaBxXvB(rv%LcZ2!!t
z025w?`p1d--#*Q<e|y3IFhVJ#K8}gcsDaQET|zPy3`l$@ToWT}?}_&+P>-Z3BmpK-
zG`Z8<W^?0d-TOYe?ft+eUni)SW{EE{A|S9INXWQ)&qbfHA=cK@I)%+|TPWW4h{iGT
zJoV&1`0s{4bP0oTa>W)M)xk`OFdv90!#D0(XR&w6^n-B-QP5o-EFuI$y*uFYuUinL
zt9k@P5L-K=%Nq2*5Ehc8v(W^vsf;G=hA$+_pv!s~=mrvCp)ZHU3k_t6$YSWWYb;M*
zx~f1ZAnreNcw*4mxRMp)1tD23UZ$`(j3#G9Bbpc;&}6X4#|B5}b2tYP#&8Yuj=E*1
zjP7P12qUpev*b-FF|UH4TiSem0R|5Yg3y=mb=5mj5nzK&r2RE+$yHfiUAy1^`|F>0
z`iw1~GEk|C4M;#zdFK{ihN(4`mv*WfZdJaJ|Gdc;o_h9os_)FhNZy^Xz7=#XdcZc1
zLO*}mn#jv><LCx;cqK34EEC|3Z+iIgGm@Vkc1?u6nN;4iFRJ`w;mF1KoB4y>FCF_6
zw&io`n=A0mFW@)RMS3ml25?n-5gJS9hKocxEAAL}tAm&alQ@k!h<o_NNGLi6oQqgk
zQ+c@zW+#U%|65`EhS4nb4nbWM#3Yc_<xhinP<8MRgXn)&6^TUEFnAx=NRvz)ToQS*
zRysnB7~c136oD_0F=jMYC6Nfq+*j-k=kfs#_v+_Yye+V1Oj7ffq?^CKH>|8SFh&_N
zJaxMT&dCD2yVWhnuJKiVo-uL+#XgPGFaoUKR-@y)8XfYzQ?1NIbt)M39=1<3JS(5c
z*}FwotK5;A3H*}JK32#e<QU>qtluxGe)eGPcc~@SxQQ#0kzNT(3FBcR!MlAa^-IXZ
zSr~<4-IvHYjiF%D$47musAZq*+E}%Z^1GYO=fF@eqI5}KfCT6)23xxo)VQV)?5SYM
zSQ<z08qOk6l|dOQ7oqtyU?N?iUdN#<ij8TEd4dUBU?If?&8bqF;+0y6lk=v=RA!DZ
zm&hBFSt-C0bJ<oAk+J6HunTj@XIj0+gicP#fD26L5^rP5!Nw+7rUf0;&D9*1rRs#&
zl-SsFeS3uslv8VwXOM6Fn)kkEFtCrPE_;=bG`5~m_>2p}-peB=rR<Q0ENneoIc<5I
z>P)noz2u1r<<mO#l-o2Dd4|wmG}mv(7@n-yc{idH?jUbWUWJ_{jQsk|OpCB2$-0`c
z9p-cmSm*g(^R#u++{<xCd2ee+4(n$7>u9sk4`5ERNc69Zd+~e2|Cj_PkQ`S~&c*0j
zKb$0KmZNrRP}guBq%2HCCEH`&+HjjY22WHsNqksNC#S>EE{CCgEDUQ|HFoKw$`d|K
zR=|X%IyG&<eo^O9?>Uji;p#2VQhi%J5=~TeZhc%%nn**zEQ^3^J#B3;T{7g$1!Ht+
z6^B!Z=6ZXlq@ZzW90P?zbrK~Q=A~iS(<}v6#*o%JTMjqNOR~5^l<h|}0ehsc`g_6F
zy0~g1IRz=3*S<6cN2Y0DNeM(hJ7r%-PQ5Z;w6*YHeTuRDoP;!K%hzq#C#zIe8uVw>
z0X{lkm^<90F*M4!pz$u@6wI&R$GoD-aPK_^I<Lxn`mH`O=drM_VU{h_w?YJde?Q@D
zhT?%INbSU}#d?UWD~Apt71l9j$6^Oc&%&ieD_~ud{P0Lq+sw{|Kh)^+UEt%`XDzW0
z6!w~gd=$TbF8+MIuL`?ghh3+X=60`4M}A8Kp`Mabn^KS3C^*|jdX=ThMnOv(o$_y`
zor0Ej8Y)3`1>&fc;9M(hmMW|41TF2<z|EDWg0>-bI9X_Bt$9nOPWq%$rA1rwHBhNi
z*vt52%Q%HNY|VD^9=4_*r$ZT6A|#Rb(}15Ft|u12<pgb;q#Jg8DuVNkko`t4yg%8G
zxs3SG)-2)2D3C8J>?`o&V+7?JCHsPwA0lYG8L}@bsTmhCMq2a*72%b(5pc42R|sLX
zk=3w%A2emG4fG~uwF1338~t8oJwPwopg&#gDzLB4#a^y=2k2L=Y~Q5*R4DLzt^#jc
z*OCg8e2V{}TZ?)!tv5QIy?o#~pdarx7yF!M%m;4K#0TqMUR*T6-tj%ryVY$yXrm0;
z!Z?9nXKg<@e#SUu#iI8i-Eh0TW$r{AUwLz8nxmHCj5J#l=)9m2C(~)3>@A*>!UjB_
z?p0EmVVqV_M)j0~If<ef@s}0ka1yLFm2dCc{iF6(k);AIk~3$lndQ5kGPI94K>OIp
zPqY<WtZOPvPyWn_PKJk54v+kKRe5u0DrB~D?)6Q}9qiC2T%G+GTwL;%<m&$k$<A}a
z$s8^#+7N5=Y8Jjjs7{v?HT<`l7~>85-S{su&Mjd}VDAy<@6N2&pDL0fO2>!>n|=PD
zr*nxOW&;ia7sFZ?1Lu<GOy1UnH)l@jv{$D&t82q=I9Op68)N!x#i=tRn=OF4Rl(*l
zTeD|}kUn2Mib%%6(~dl{+UTN}4X&H|$&9RZdz(j<t~6=N<&2uaT+WTvRe#_1K+Wpb
zq*2TB2%hYE4k7;^l*!V&&gBEuDR|n=U2Rk1N)xT;ACZuR@KFR^c12ymRrgCOgaM)<
z!Mv#W>z^cmVr*u*XUKA^Zh2i~&N<y@-ZGg?oSXjT%iuCSO~zAwv}!z@4jPY6Gg*c0
zAc~&cIddnMX{YIEjf?HSHDk%xQ(i9rgXx%Q^u$7~aT`upoOn^p*5B7g#peSzeqwR2
zmw)kp&Vjh}-gE5~XJPFW7irxT&699aJI7fR*UmAB>W^cP)$hj*o7T>8o7CO_jgu^m
zYA5Nq;jDI&Zj|b^lk~!DQ9DV0u?%V_8M1|6KS}D=-lZ6$)w1?>VxHthyxLhhvFp_z
z%V`uu;XhyrleB)8*iGxt*ueGT+Pg{f+KpNLz6`S^tG!X0quBN9cmFo@|3OW@o3r|-
z!dBTTYahX^-doDz+H+>*J%8$Z|9~dWyxQxTbsHw`wDu~{D!TtCR(m+DE}ObpP&<!3
zWWn@bjLz+X=#Lv@H85?6nt`7-FZ}dyXjYDvSKq?`n*M}^so5`n9tP14{3%QQ1+y<U
zzwF>9{>Xu_*LLLPTh4keV<%Z0M_GRHdRpM-e`z}gdt1i#GWNsN4`-UWa93mIyvFX*
zVL`$gz5F{$Jog)-=EC(pc=Askob5nfVCo&~GWLe9Hl8@<a~7qnokmUxoY<qNtU}4>
zM~QPdVMdZJ(u%T95P45h$_}T?ny}b^VPBPLTDSbPA1;gQ>f;DZ8qU_#rTZmyn&z~x
z-E=z;97&$Gm1pGg<`sRKdCtN-hu%p%%NBVHJ(^7YL#CgyMMb97&p#_x%Z?<j$rINq
z#FdLjM^b0-)M-YUyC`P<EIg)4i>J~qM6OpbjwG+mlh-cfZLS-Rq_5+EW7NjvMlb*H
z$Q{jxz=@l>Uj#Ptp8CvZ!6dnK7wmXda4f8X>-DW8$@6#?w+n~w=6=Bb1N!zgkt5Gx
zk_oqwXhjP1o-m(PE{~Q(#*=6l3XdvpDy)M8H}&R6)8})W@NL4*^DiGSeNWt>c)j#g
zHWZf5k2n?w;=yFQu5cuU3t>Gx>QzY+3Fch+IC4mzA9az+?FtQe^`xh(%7EN17C(l8
z@3Etct6mG|>QpX<8_prc8E%@!)!d!rpZVh~J!0;X)BO#kxoN^TY{}g8h#H+e)lXkn
zzmqt2SN{Qd-!rJMyO?7OboZ_-G#$HGSvYR{<xL2i$`ir^wc{k=HI&lkemG%o2T0>s
zIFgjN(GUxdR=MOj&cE#><wc!3Q7tQv2axr-eD?jiF&{~r>+8nbFg(naqq4|-v-VRr
z2#zLC<Id-da@t<bM2@Ob-!~o<bIxKw=;VbCvC1c@&)Bc89Ir;%@(@?ws_KAc=3+4T
zkEnxN@gG0AVR={Pd+8Bdu_3&uIBpV6-cr5ZE{mjdmiX^%Qdzf8jxXAtttBPj+jeo;
z+bN42OJ!Towl^DGj-;+9teD5u=Wwou?0jT#FZ?7unz}mIB@dzRg{yDq&q6oN;zM*h
zPeOg=@>oTmEod7DT2hl#*A=#ngXr5Y?dwwqr->D`?thH4-;K$;qiM@H@|;CczjR}`
zbi-c95F+a5>4AVQ4g|E>qI?Lb?H<kpVJ#N!fv`q?FgcKcA3NfZV3_?b`j`DKCd=DE
zTo&Cgqg`x@as0(H*!#s#3QhMDXTk!1k@rF|qQEzF=<DT(&|122Qe3xc#V^e9!|;Pa
zT*zD(TI9osQ_OqN1?}Qzz#JLUuVtew#h2B!9l`E2FG-TETRX*reB6}4XzDu{#g(!1
zQfx8%hP0XZ?C*5f6Sr^ssn)%5*;|$yugV`EkYh3Ac261~Xo3UUY)9i`O>tOx8_TDn
ztCR@==QzOD29FQ+hzC2Jy8>kaK5hL_U_pq(%4<e?7DTQ9ZAr*k6a{>+m<z_~dCkp)
zU?2FsXr^!jH^I%Adli?xH87p%be#hbG*2dzdKtFEYMmUPo5sZ?-}<^FA3DW@Yrh0<
z=XE?P{+XO~V&_qFdRil&B1TRDlB`J*t-+srT8@4qcL}{E(2xWj+gT5I#ic_2v;2Jv
zqN70a|L@f6ZCOK9cKe`E@wKOuZs+0e>(9mT)-j5SZELdLc)i_#z5VwVy`_ZSoGwzc
z%f{KP_-%{X5n);#=0yu8DY>Tx4{Pp|Kqc$aPXY<IKK()i!F6gND&OoxZ<6+0D`3Ok
zjPQt(#@u2VxUT%cp}>~h3mal5X6}=uDSU9#`Fbs^kjXKnKau3{@ElyfCRiNUF?#XV
z#7~xiyV@d5MF^W`rKK$QRlwnfxFA4EdK;oCxYkBU7}!~I>8i2M;;QlbvFVuXY^sC~
zTl+@Al=OCm=ir+Aj>Q4p)f-AZEto#tpkT_SPdD)#y!7c776(qBEiAry3|ppd>m4!r
z`tfUpM4sX~xQXmyao|MKi&wfC{Y-@L`PikD8GS{3xUCFmsFEgMQdqb)U*VBpqh$c9
zR{s`WL3Sl43i?PM8aDVI4JhgD1CoGi>t7TI>?n0QU94E`6*5-pP+<$E6ii7MW_S*+
z5pygK>;=7ewQW6$5bPWw^}|eZ#X?`G62K-u6JaHNj!86Js}lkg>~=<(ACQfDQ$hz_
zY6=$+o846?r?+V+V8d!{Jfd86YPPWqyqeS$uQ6^<9U%mNMgo<L|C~U=O~DT|5ZIJt
z%2#^Mrf@;iJo7_0kgVMUC3M*0-xN$qhi~v4T!V*L9N1ssqNaW(+wa`VL&LVvCRD}g
zBj4kd#HiM37uP?*ITtQX8oeNq9G#j|6>vE3j|51`*6@U;;5LQ;2?P5gURL}(q=4+p
zvkExuOGbc{^yLLj!S&@82?P5=E?sS{E46umz*<8?cXV<t7&?-G=Yi2gfq)KB%U1Gl
z2p1*SNBl}9-&Vi|o0V}QtZtiwP{CA@OIMR6TzJ&`vK94A9vV*7Pc)!p&HsfY;MV*L
z6bNjmaD}jW!6a8sjo%8`uphU0L`g&bU>UfM+~H7QON0x1#^)g#WKTSNcOsd=36_DI
zL54$tGe|95?V@Jl1~rw;|D!xK+$2IYproG>l7MUH5(NUg86!s=DL*n5aM+O*0aDVF
zcQggh6;o5`X~5u3lK?3fylJ5+xWTuOFkq!Lg$sDQ51vzNr74^vHDwRG+cI>q4BQ;{
za42vJsf8=Ov?*LeGzQU&<T8W#Qw1Du8kYn}NmsAX6kJ=ckub2YH)3Bi$tk6ItAGu=
z@_<K_H03Xrf$NEAVejJ<duUmZUb@=YJf;2)PW_C6DVh8^o`aiyABzLG33~CW0Z#~o
zkF)E@?J874hwY6in3DD;cn+?;DHaE|_XR&*ldV}PV1ve34P1u=hDt76smGRZt<S!C
zVR7tFBu8$`R3(6u)+WNrRcK2*^DEzgMG$_DN0ik31Ixf`f>s}g0@q4v;cBfEKTC4M
z(oA**-MUnRhmE}<fl7KiB#?0J9if3>hlLAsJ8!*^^5{X80Cq_@^V+_93YxdkOIItl
zOX{|`4vq;>u!q8>LE}31UnKpTser@YJrN)!+gE_5;Ciz_!oa==m-w33*;vw+SOFV$
z<pqx@Y04{>f$PZ|4h6R4U11&|u%x9Edpfx+wwfdwUMgD#0Se5g973ftZ3$N%cVCDk
zWldX|0c<lZ;aywn^Zg23Cpu^#*awO7RTspMjBH-DC*{Do5;~myUldHq)^>sC;2J!@
z;=umWi&yOxu3?%x?<yhNd!vL7+xv%tDQWK=o`Y-eJr)PHmtMSTuXr_d6t5)B70s4+
zUi1gewq?p!!<$e$aLM|>Xgu6HF{NO^^+FD!n!Gt;a9F?IQmT49slmgIKO%ujy1gWj
zaIJnu1HnE^l&_kc5T+s$Ccmh`!zRCzK;=xfb%mZ0lx<shL`lspECa7r+BOaatdh2P
zI=FdTu|k+VJO?+>Gb|1qD!q86@!8_XU3OoMLv4KaFEx0$7GIG-B^|ydkZ>*jjRt}}
zmMC8}S-57~${~tlwk2KuqlgdN{FjC*>9cS_b$h%XG(oh5tEq<k0<=9*0f%!sCqPOj
z)JIcro6RE<25vOu($yv-T!ys@fJk!1&5qRIVRI7_sHD9qfrM*th6aKyex(faWP{$7
z&_RFN4N8Z`%UxT;BZ0|l3zuS>x3Ul9wJil~IB~+oN^|E`p=7;XC3INv4+^GSOKkV?
z9NfzE6N>{^CGk4rL-A50Npr50&|!0i6ii8TMtBacIk#9G*c|b5C*|?G3W45Z8Mt9S
z;85ToMaM9=;4{DXtk|_(eE%hxvoV%|n==oG0_TicxSAy4a%1a{AE%k@DF^MjB0k*m
z0~)HNy$cEp*WwV51lzns^zAH`9XS&vbl9R-3Z|q%Z+H%_Ju55@Y!1D6r4^pi53t3#
z&=&#QC*vfIUD-w13srnj^)(SyuJ-&UvGC3~yCEQf%MT+Fz{fG~RD<s1kwI%5#e?sS
zF9+YJ&Z7<<d=IPkCoJT@Imqm<zp`#>n-}N+4bByxlA6y`de18L%hm84yxz&xu{dDw
z<cd$xIti7gj;@Ji;D%}8P~ae`g{$>Jc%#C~%d6(8O(5Z>O1$Z3`x*-cwH*QpSM4bp
z2=-Q@eAV6_;uOX5-69J4I>U2t({+x;fwLvvFyB?%+3NnpGH}EEg+qaZ6mLe#3oCZt
zmv|0tpjTKNI8^a%qiz%guF@Ve_l7{i4R(kIf}<5b2HK63W_|7-ECV;rI~)oer1%_=
z^?MB!qWp`d;D+g<M=Ur}#Jem))oIoQ&%uqAVR7J4#Yc;rs8!rKl7Jhej{<=s6hAc4
zaf>&cD#RF|DY#KCkT7tZ<kHpIMkF4=-B|57BX^1C;HK&siv#CMxN_7giz_zql)}Od
zH^U>r0ly+<XMx(LB=-%^!3}nW#eqYm7q2vgaRWIDf&BE+ReBu*&{VN%+(c9GoEjTQ
z7&uYFi(fl0o&TrS3db!H4L4q!00qY^zLh-4g8jwCXBA#5ElrQRNCIw}dMFS$Lg8g(
z`9@HM2!9|6xDobIAaI1jD@fxiR;=<DXbNtW10)O_=M|!~qL<fb3T~XgkuY$a;@kPx
zQKq&8Hy+_RxRKssao|vemyh=Ej3ue!?&k45iG~~S0|5$-S$ubY=k?or?&*((7o@sk
ziytEixXJQRAaI(9WvdBd;v=V@6;m`tQ*e_sL&Csm5?{!ks}10fNCIw*Pbd&L!iBi3
z(k0|LL=tc#j8GtOgu-i2{X)&d7)ij5FhPO95oY4DY978I3AhoyqCnsXiDj$Z)e1X}
zSIE&jo`aVruOU9@<|K}zR~50IMj+v;)zLtpv7Ydf)VffQ)+CT{qqWdLaI`k!R1T#V
zQh04F12<0bW$$pVc+ul^@ElyNr&t`=65++KF-+BNdwFMQ3T~k1NEkRya_LGR>WT08
z4%Lp$@qS_%xM})@LxHn|IeucSSn)6M9Na*!usCq2;+J@h{6OtALhlC8!3}kY#eqY;
z#cyk;?tJs^6|lj*Z=Q?m!r@TGw?gy6iWPW*=is`^usCq2!Ye!b%uUrN4|5U?H(;Lt
z1;;GDIXYwuUn$-IO~H+IfrNqMB$uv^R^lV+hI6HD``!}Ez)jOL4h7Cqf|&X!Ue<Ui
zo`V}`hQ)zHeMRI+ZI<?iW#ERn!l8gcPMVbM!qky!Vkx16W7XsYy&VM!cuv^;LC(NW
z6>wPZHDwb9S@2K^9aj86+e<;#j9Y-WF8p+u#{1XcCoX<NIa%XG0UOThBWY(hS@1#)
z9@hL!*)~U(oGPKiir?hB8-ZM=DK-mGFf%Fpc*vS<C3IMEm$K)XtoU3B9aj8{v~`&*
z`BDuY);z**Kqd>mQ^1DRGSY(}WWjSacvy2lc@~2#IZ{H06=(QID#&`@6tF?HQ=PE8
zoGN!}s({0K+k{<uWW8PVZDKO?xjZzSh+pU%zGSVJ^3br>5&G6GS?irVG_2KAsbDbV
zjJV^HoP<YJ0$6v5-abQC{45U*Ykei`WFf14R{;n0&Kl@@{ZzHHraUyPwN1J0PL|sx
zY*-|NpR0hw+4x1-ct{p}se}$I9ufBsl11OC62Q7WrFsWr&d^)A$ys=mhlaI==uO#V
zt<Un%u+~??_G+@)cNK6@?_4Ks&!H-wn`-c|<~C`Q4Ow%Sa8rs5ey#!zr(=M>H$;|u
zt$+=y9Z_!bkoDdvp~H$jwdw|g&hT5O$Vqrqz=qW>DYxOtdJ`pdSn(_IZaP`?yD9;w
z+i&1+3{oZgO$BUNZHuz8j;yy!+0sKsKUYGB^C8}EwRu6Il;Ue8bXc+Y@bZtByhv$&
zP{fB-yGr#A#$<$@ljJnaRls4rA$|iRS?;p}HmvrQvJ;W4_gx7cRQza&uRzx?iI-9Q
z*iu4=6^l2rZBFx-Qan>a2Nk~`-~>mm>_GyLr`9-|PTBf)y>*(!Nfb9(G%d@3lFCgn
zniaBFr~K7f1LOtz1<M{c%deKX(X?`NO{XkXZj$L2OvT=t^?7@{4^Xy)D0*_|%$;aj
zxtCzz#!oEn_42=M!V(agUkNR*3{g(4S*X>&%H2IsM4(nCKb{+Gx0)Gln#S#u{D(iz
zQYH_&{=C1Z7Fp4<SeCJ_mb=e&ma%T`*6m~;qSYG9EcDXMP1&S4vQf|L?)AqfC7|IL
zOE;Yts?zz8%@*537mW&2Gp}a(hYFSJa{KsFlf9*_W$eG?Dy-}LFK6LL9QR2>u(@Tu
zy=4c&E>DU)30Ku4IrH!Ro7~ub;;_XsU9A(e|8&g)t}OorbD#e$FA85+oEm3wv_Kq|
z*)yj37xUa7tOxjdF5uxC)%J6sX8*H_tr=<T`hg$LoDx*JlAA2Qu!?WkLDRABgAWQ>
z_LB$d2#XXOMTXTCa;o>Hx((BqxeEp5&=9ws(9|<%d}sW8==|_>nzfz>q%2<e;YU;0
z3|Ly@k|p_P1D3j9>sYyu;-GabkMclx+mi%#Mu>Cj3=N+AMa#s@zs08c6tMVN{=T7j
zaX8g+J<gO}?!K<O=`EJ+JfzfjgWhxAC+O_?yX4Kh=~+xxc5W><alE-3{~y)z7*mmm
z0fh~C+TC04cbYmFKKDNo1cZ;(+Rb~`ZmaEXcfaIBNNXk#n#8W|ufHK$i--^wBs=$0
zZ7O*l^S*h1Jr&%}ZeDKq4WF>ZqkXp-e4ktoet;p{q%J2bl#Vh;8BU+vY@LSuB7dV7
zj~+fQ)?WwFFJM_2B_T*)NQv#tGnoFcz;x_^zd-jp+h^N(sJOGAQJnI8>j=d-xtVO=
zE}nJJYex5fw%i1676|;LFas!NXwdQgp4@o>DFTesb;y4o;9-Yg^UeORV&N+Y?lu{k
z$2dgW9qqAqL&G_=77=it*My^h6Ck%`{vElKFW#5*84ZPr4k@|UxzYX)bl3p=X^c7`
z<Ur18$%`(;5?-viDKByuPk8B+#xV(3hWL09qWA?JGP0~oxjIX;HSe34@WnTW%HY9K
z-GSf><Z~He%&~GJ$l)O^Yj}lG9I^W}g$arbayy92lAAvjOA{E!y|c1vSXoX^>l*PT
zi42nyPPQzOb3dR|T!8R`KCKg!_U~*qs7`}|+aS+_W07jFQggH%%u#Yk%$tcN1Du96
zoJKjPYtsLPbWYk&mN9qhEJo%?9miE)#8tzjD#PkG%x;k=DRIb=K`T}Supp0LrjP8{
z<1I&CLqZXLN=<maTN77pk-n)2r%S}}FBFx6EHlT|f7()EN3oVd%*SM%_J5FGjg|e}
z$kTM4^v=q!4{RSOS!cbI3hGHor!z;Y!hS(+Kj~Y&(;C+mWrIAZ8LF=*jl^zIhG751
zE}OD|8K<8%(K6%qC$8drdlfGzg&Sj>j^+V#;ENUne!`5KBUP?@=A!-Hwv#tTn#q%X
zHQ)M`85_d-;?>AtkS&^W^eoBxZ*9Y-$neh+8z@`Dri5r@ntD!JdQ;W2GSea!)un1H
z_b}0bd?KX(q==dZVMbUzHeJYT$irptv~XSYx@U%p`Bhza>&l{8`o0_;_RcPDtWxh&
z1|R#6u1S-R84(#6sh?Gd^k~qStm({VX@p*Tr}a`7_viR2g?vr*JnT)%J?7P<9FIq>
zo<CNG-#2)u-l5bvc-qSE*l$2A3zwdjvfD3QUSsr(r~r7>X?fbpYcpn9S@pD()keGu
z<<#p!IV}M1guM!bmYSeITNxcMno*Bh)u0>YQwh5qq61xJvxsV`qjsZQDuI_L=s{P?
zWD(s4N?|zYKzUSwJ<553p0ZfP9I9jLDThT+NA-Mll|dEI<G7)z{HcIehK&xCJtgep
z3#_Z$DZw6lR5!|85!_Xe8)s48RJc?sYe5IfS`pk+w}Pf}Rz&q%U2KhJx(FJy0@aWJ
zR6r}vS6A68!j4-cWo_lE2s~*EtfNd7fiGJ|v5uT-+7h-Sw^DOuUt2jE!$!=be#O^S
zhEzbydC~7e`B4Eb+tt@rc8aL5Rq>(I*cY5>(J}}8zA{rp4O`wE4dq1%_C!F|nPwP)
zl~WBf$cMmDi&UVmd=!yU%SN~x)W?<%t)W~LVR4JwtEWs9QCBUh_imJjB6{4m%Ft03
zioi)r8|w_w3b3SAuhfAuPy}Z!KeNW<zX<!%B5r9;_II!^*Hw7dKz{jb4Mnp(6L7Y0
zsW1B#DK|Lzzw89t@s4N=cWYaj!kv&Lfm3UQl8kQvp@56q5DV(!Et;sZDv(vrmu(5%
z3#zocoa9wPI&Vlo?saawVT{raFmk7I`?X#Jrkg=bSqCurNW-#(hb-sl>22`2NAo5m
zCaGP5J9*!&fTHI$ricNKXoAJHBXsvj^Y=IfVT4v&$54OBmJhAa<|m<1o5yk(utaf&
z)G3Zsao+VuwU4uZ{~^L|ZhxY$x}6JCjSd7L@oV1d#Nzn#Rp#O}MbyU($QN?g<~`lR
zJ>9B3cUw8tTd@qLYTqK>!d+34<O|FiJc^eff1d3iTs;U|0m9RR7%D(mpegyxwhr=i
z^)UPaKd(IZBXD6XY6N#dUQsk0lh>MDD`VhP@~FsSV+(=v6A_8d$!7{GG={1)Ru`A!
z@BjY%JDJ}DCnOYkB;%N*-e>uv?p8UMgxfV_mVJ`3XQ>L6bNWdh?43N;s~G47)cC!8
z-kn7vVVpXdVVGq3bev-tPoHnm)JD(8oO&_9epqffax(r2KO&A3#QqfDc+0ar(&-}F
z)bRb<&++9m&2Nxm7~!z_^v+dg=J{3Dfct`sJvZMT2{M8VgiA=<J|<F2D9VMFkNFI7
znU($n8n3Et$R@7{c-p;KZFAZ<5T5%-_!a!I5NFEGh2%ooN&7`3+e@M%OO7Px<$nF`
z%0QqciAiXO!N{_oXJ4gV!7gW$>Foa67HsAwHkHHc&qe$1p!$ymL1T2uYF-*0juu?X
zf|tvg8;|hOm0p6HI|IC)&RqAI*yX2_@we{}f7kObEH1TySU51LGh8@3EVYzSx-@@u
zpeiKdEb}~91|UztPfyoeH>cOp4}QK(lg}(c;ku0Oq0EGGni1=0ilZqG#=%#X=YxqY
z7U9*?;M?SE@PkG6N&UqxXZL5s_4AWp(6p*_Eq6cy#~}*_7n>Q9KaN?{a2H*0x4KOn
zsT!V}JW}w06TgE#ndrLayAte>?GutT+*m+tg5kKJ@wi<qzyt%S^^)HLuYz|GjD%%S
zH|}YLW?ejfhLiq7q7drF+c07=JT@jhgSsF!kfv3N*HC$)eH<PTWCre9VZbtsW-SzV
z+N>b^K%s8daxq0oZ&nDUn^z#)x?*s+W7e6rbbTQqL8Neu^z93x8)g7K3aW&@sJL#W
z6O6E;Ze(9ry4Fw|X1Kb6gMhAWBpm3I%$rA|*e#a}rW;T_vElI9$OqwWnZ#tpd3Fz`
zul&d>j^A4{*>6%b=xjLD3q#^6^kdK0N1fub>iK@Q5Fjg3wl84gpS}RnsMN|H1P~Rd
zg8+vBdO(H0_|yZe6y-qxpNX#k{Ejhd43+^(!ldR;1+WLh8wS!IfJ{B6;HF33??S^s
zC<TUb=L~LHn)#jE9)Q=aI}C4Ky|aJOo=0>2F?7eUhH}{#Gx88zSbYJR2R!eP*i;Pm
z7M_?azno*q7_#gWjzxhE@wY*6DkM6GW^LmAOy$TAj>YP|Ppp36S+8F(Zy_W+*Ep=m
zF%p5Vb}8%XXW}boH-3|AlLNbC6B~}xnJMQyC@PlRwc0_pNsQ5z_Fa<Ac5~%zM<lzB
zNcOq+I8<A%v_bGv$8duUPARqOJjj{%$(9#>X&<|{lZn6j@k&Pcnv4+c`U;53y2&tt
zPH>suA#lb2{WTLRDB7;&$$Cgw)Gj$81dZO+kfmj7?4~996_;%qKI$7+BK8L~Ej*)_
zkxo2q1bT6VR(5nsHSW!RcG|=Ibl3d20a#ASbZjv@+W17faMg4^TfaJ$oN==Rljr#C
zodR)}lq>cf)80?Hp5L-z<(iK2w|YMq`gWe0B07ml+<)F3j6H_<V0_Tq(-&4xsv9S?
zO3(ez^re$wg1sA5(O5rjpG4vuFL{2XsC8$R;F4OPe?*N3+9PHdM(&C_pAYB?#%Oa1
zN6pb-@I_T%EQR9O$&bD2agt{L9|h4@DA$prD)wBy@;@b(`k{D^mwdCzu{yH1>V3~F
zf1%CnlHPCddm4vv07qQ-V_XX#O^bdj|JDDdk|~{I@;{}?wg=`=3orP8pXl78!+`^`
zBY4`?UE6ZvI1{e_jqnk;3<;TKD<s(@Gn?5Pm9PbP;!|XqB>VKg4mOzJ1B6D*Zq+ix
zSl`!bNiC@*wa~-lb~U|am)UG?K7I6lUQT<zkd=MJ4xu!mw`^n~XDq%NMoivNmf|=j
z{w?FbILIdNDYeJ^<AIF%-~U5j#Cs?JP4;0weWc`YIE$l=82U;w!F`!6uAi-6`0mAZ
z{y+{6!^CqlMuT|aKFWW-iY#7!xwsnr{O9e@=<z$Uy@V1g&Lfq=u<kL<$RuVm)mK=y
zl$G^SZNgNr@PsZh49Pgk=W{|0SN?z)p-~WHRut_3**<2t{{zzi$E<kfu;hir&Sers
zc+CHXrd-!1P(It^r8y}ejb56^9?J!-(Ys%NFMb{@NK9zpWrnPV90f<CB#-?qiL49X
zA43RKSL>`5@vI-jE0uy7qr(gS5zKN%w9#fPV)i5dIF?Z)aKrxdAG7?gp8qd@Bc+Ll
zBJ9z`G>j*qP~O4_j!sGBOnkzd*s%;!H{3`Wy$8Z_8jDH-25Q5hSt(|Qd5_rx;lGgB
z1H^SX>?nDM1MG9azk|?+LmY5KzydEJAHx7rkpl85PeUL`X+EtB8UeydYYd1t6nNig
zlBYnR0V9z;;U7SFyjYetFPG&Jcqt(-JYA*3FnZr(pU_Nn{RPu7Op+J8B-k%(;1tsr
zLdT%I=0&ELj%lSEziOqsj<wQ#(_2-(=`Fj-Tr1s;US;0sRpzbU+}%-~bYirvmoL`K
z#|Kkd`L2SMUcQ9s<@?ZTsIBWnZ+o~Qdi6O?^tOj-t~Y=8`AjR{1BtZqJuXAde0tl%
zqvrB^q90oMzGqsycl#n|iB`f9ju%=9d5>i3CbYB?jzi6rW*p~{Ucy(s(?5F>rCRN%
zeUl`qR>Enr(pzcnsOB=fqk88q_9KY`y@U+w&7p8w>m+o<;>)XE##lQef8W!}IHK4i
zni&ax(aLy<sotrRbD4xmteG*2ux7?M)2vmBnclj36|6K{0J%t_m2oN-N;NYwZ>g6t
z4>gw~|C#8u01qV6oX5vysGX7OX3S^W8B?NlDCax{p|97jK2aR#?K{55f#x3h?<LW@
z>dP5}P%q=pfP`9|#4aC`YhI^u<zP;$-^d-mGeWgiSNGw9(&SAqrQA!Um6A`BS>S1=
zq`9Zn*ty^149~S%g1(qXzUZB0_2s-yZ|~f{B6FOFTJt&JGc6Xxxz++5Tw|u)A`Je@
zNyapH)PqM7&UJgUhJy454z(2OW*=T(yc@&|i{dwJ#A2^rNo*K$UoN6~NKU**?Y3;B
z7I|m=lm;uzh<nd}xsH#8Rz+!r0kdub27~4VV(0478<s1GgD{vA7DQxlQ+zoBH)ABd
zy)1LiOVLoTBA<jo#LJlWp7?Li$grhH;i`Omz(#N=@tlS5qI?$67Xr4(Vn3!h9=#zL
zF{+(LS@}(Q2mvig$ftO{{8T*s7xM9zP`}rmT>ufD*NtqCo%sCSpJ<@!_&Xb_0>be}
zZ)Eflm@uj-?I(_l90{bLxg0|vIo2kkEEfL2=pkV+>S&jcwCk3?&Aqk*bpk{n0%Rtt
z)JQ>VpzUqYyUZR8^A)P=aS9Q(`<-1GLKqn)sII$JGN?}XWYie(ANM!5b&}XHlFT|K
z8A?H(C?O{l!|N2I^tPW&1ixDZc^2)2B9KlI`ZuDR#v!y2>d@lD5rYo(yz%UsGfUoy
zU)e{yK1`*LQXJ^9?lIFySvjEtM7ncM)lE_{4Rh~OH5=<bVW&%yvYf4pS)i9xbmhDQ
zW!GVXHRo5BxO0PNB-Bg1K5%mu+B<p<+9OZ-ew|kwt~>|t)kl05-f7Ox!uvqxXW<n~
ziD%%I`+CnpEOx)1g;;E8JPWbd_ID0qwQ=k`%x^e2OFLGZtj@$NB2%1)InK_a?P3-5
zEYxbz?kv=5CG8y4<x0~zxYz42=OEuKjp$|H#DFp6){V;$=h@k0ux0p}(qETp7Grne
z;8^~XMrqlDV&ic-o<_|<lhpnm-=%PH&L{xHg9=u&gKDWjT}Q{4*#UM0u-qATH~U3A
z1_v#j1z>14tU~)T;uNEBhyxYF>X=|ApCN|=^2h)#wV0Eb{{oD8OIBc*$FK43z_}dm
z5v;t|4oDa{8UM}b{RpyP7I0xdKyi(0v0*T~#S!sAfh`66J&qxvh1<>O2~TS=4g|%O
zBCCN8B(5Rky-uh&MhFZ1fa3+Z5o_rgD6lCcE;l*BBR|oPQJ8oypvcaYuw~*u<#d+J
zgKP;2ZW`azFi>$^&_y1BjE}$qeC+}j-f2KYSBN;7gF;S8G$Ww-?h7ez2!qEAKrsgr
z6WAn3P{4u4CRUvCXF;Qan*oU`k28Uz%FX=XsB*(T6sp)}Ve~{4KDpz|gvV8Tr$KQI
z-Zhe75g!*kum;!?fdbab0EM>K(6U1S#^#@ePNvY<ayBOjl;83+*zo#xWaW@&Fyxt2
zSn!SD@TKWiYB#uEZ0I)QT*rKH1Buv|8HZJ>#QdIt)`C9A19V17%t2`-U_k|7oP&Z6
zPf|T4s%%`~sPgn6DC#3`q?qLtv<3{<rUeRB#Kkpw(t2}fxH*W#b&6>Y^aMwMn?rd5
zn=MHe{7d{#Oc^AV)w_rnAt_EkotDdn9BqqO?+)accsJ@XD6n~v0pl@Pyzwh6-gOL%
z_YJr_z5(kGY_?zG0qgGuSbsOb`nv^|?~a1v$(?nufH5%OQ5PK40g4DRuz(3{r4eCl
zVFBU1VVgj-z<@chgb!dNu1)M#Xh7gn7P}ci0pVs?mGGjlh$4O{IHCoMC?bFYBf`!8
zDlt4^5yjLO7E#2gghmAJPt|r)SVV?_Wdz(TQ4ItM3>kw%$}oqpkSg8<ETr5+3k-SG
zwQco~aNgr;EJ0XE87vSM5^`y&8VU~<QbwMGg_NP?pdl$ZqzDcN3n^o<0Yd`1M61!%
zU?Jt6TWCnQCDdxbGf>DPq8Th^u~{D!Q>}-=Vyd8Hz?gE=D=cPl0s$BkaBX}0xB?_*
z8D$F=v^?AZ3Azqh1&g{q3jv8*IphEXyE!?aR%_%Hw(!`pFOf$Rz_E?;tO2hZ@Zi-W
z9nj#P&uW0<Z{JA_k1v&TPl+FRaHHZ4{$NvUrimZS1F$W4YmPy&=mxI*;ac}l$bdn)
zHo)~E-i|>g<i*r??`AFE2`}EP<vZb3n6-R2n)yz62TC2^NiT4$B|PN~a&?5Ky}_!M
z@uasA)iR#+cAz@O6W>WvOL^K0I~piYd4EPN<-O>F^-`WT(t91{spECma-KL~cP;0M
zqdeDfY6x4aXhCD5Zb8D1zc{d^d6Z;n9<^ASM=h4dYlQ0vb#y<L{_e-pdSO&8<!SH4
zsiV}=7g)N3m@C%P#J4W6yKQAHsEqh%$K=gyie~6$jPlv3@O}njdxqT!=W;lN891N_
zOxgOf)R58hNEjlISED^+Xfy_LG^uAkc=G4bpFAbUwJ-Sx|I?H)a{2U~c#QaC{@;P3
z?P9C}o{JjL7#hP0qO_<8mH4m|RljO8EH;}{SL_I9S>H>-kW(7wHBF+4h$PCy#pt5u
zZ(?o?=ln+`k`=fk!$bq@<CH(jtO%#p6sJlz<}0%P4N~i$Af4Pcmb<kg-Y|$+B2fnu
z{!NgNj2~#c=CF~Ig@LC87ROhVU@G+WxD24Zt6&k9p$yvHS3#<0+<2jRj4)mFMDa}i
zd+IIhg<(oNg)%9~T60nxt7)A&MAQPF)JjkhyTIrvrMv}fX$&dJxIR%8Rj9~%{jF7W
zXr&tO>ZQ!yK!5f|S7_fxH8L@3Z4u3;(lE#3pDD>QydY!IouH95<p1}P;c_*3Nt6a5
zLGo?hpo-ES4OA5H?F^6pMkD*JD)-17p|Pwhvvpk=>QJVfu!*_wb|rC%d|XjyKTC4z
zk<3nFuCzP;F*5F2D?^9;gE_BhGwi*b!6x(@P44O#lWX=WCU<x`lY5K)n>s$)?y|$|
z?&|l~)1lR?rM-FD@>m#+(FE-nihix#b&&dKYa6<Zui&@Pr%t5S8W%tXN?~uE@n>Uh
z-=mRpyPclHWoTp1CDODxhXNNlGM9!SM&+VD$3(d(`;|x~e5~H%4}c-LsK<dm6sToT
zu;az7LEM&7+^(>9eIGz|lDMst9M*P{V#L&|ZMCWosIhjnmkMz`wWMjf>8F~iHeK7r
zJf*t#OT4~qXOrx?HhX*DkYm^1kmI((A8_Z5y68b7Z(sLNWoYV;DtDT=#bq|i`B8&6
z=)kMHrpB$_QnLrLyl|$ejAUEdzJ7*38rDJ%H<0QknO)G&7t8d~?tNynTJYHhe9{E|
z>Bg8oTHn&viHTc%JO^9}(?^X;nSGUG>#~;?0`IE?>uX$E!2K_Smlw3OfRnF+SFT>E
zhwtb^%(4&J84ethcpwK|Urla{uIqsJdG8X<f|xWXac99Ike1Ly?kHIBk)Sc)gIz*b
z1hKaS`TTd59Rx7sIaHoPm8{Dx>TJ734cA)|?*-*+2iuom?0G_8zLs*M<qWmz*+$y~
z$ELcGEl^9%loD)O?uNd(?=c+gc_d{BXGlKic;9^we3ZO2zoopK_JXj_dT)8%4fr^U
z?w`O^v$Bj&qfjyJlnU=iW?6FXmCP$lC|JaasA4EiVv-dIjUCA#<?k~7x@kxFV@A*l
z(*XN{Cqz*~DTwaM(yv?aRG-H{Sn9KYc+PsY5H@CvK0Hc{;RXL5%yL#jUI!t!aN=p^
zB)OQ^1sRfGB<gdkOy;&sje}P!Ni*B0Norq-5Am%HU8sGc;2l}RvpZV7*VnGZn^27A
z$i1cBBQ|C}a$fU<k>R?G22Y6s**sFd_v87;ujl3e#?H%sb6$RRzVe(B6zB8KEP^<E
zcdQ647TfRxJ~q!O@2h;(e{DB<X$Bs-iOoaIf)z1(*k55j$>b~wzSA%{+lI-hGfb^e
zJG1sCOEiy|b46zPLVRn7Z0PBaN8Sv7oO1XxX|<gW?|9g9IL*V0EaRQna%}XXJmej@
z_^aSDx)ifL>^LMF=FvLuUj<nj;*Scbbrh&0msOoh`6<5_ur`Pq8sVMJx>8x>Z2<54
zsvVc7Y|6h23U@!nG_7{?@q4@?l-a_Q*zStDA@34uYzrS@JN-d9Y*gQ%D{mXO`+mN#
zK~VTg2c^^0=E9Y#Y|o0lcf+o!z8x*wKB#41`2MD4W8dFy*|<w-HkiWZZ5mtsta@pk
zN$it%RUs=gV`bIk1L~>~eBpT8AAZiKLN@OJ$SKe(kv$HBUv@Q&{%yjRf!cAtuW60<
z_ZD+erGv1k;agsmil}-lz~T6nj7{=d@89LL`Cf~-hcP}poPo2A@@G-#4Zggx0ylUZ
z`Qvd}7Ya9T#%SsHX~C}4-e%~lX6Qp*53ZNfZ0$8@8gi6_HD13j<@**%=2eG9SHW;=
zIlL0r%2480oRU^d-pZxEneL^&uKfZ1+NF=DruE8hT~xDRZ)f2*S47j!g7B!#Tu*v-
z7F?nKl4g(IPw?xo{RH9fs+~it(zvnjFuDh&kBp?svbB%6d_u{b_ru~-elIuT+MOG5
zD;%FLPZ#OqPJgXh2&uY?lYRTdos_{r1BadDq*GYgZf%5=Svw?y!}aR$mvXt2{0mv#
z!f4v1yS3}Rg+N)bR)39DZ8wN==nO@r7k_3KBZ__*h!6T@ix41Lr@+Pehdl*u#p)M9
zkq^jzi=${*`h7CqOi*Q1(zYBRHdpNU^{3fucU_YUf7Lp@Z<;>NkhjE#QuR5NS1wRJ
zXRGdHPy^X%#`Ywusv|pSyj`aJswv!e|Nq)thKJ95*15YpaMQxz)20Pnw_xAnkGmSo
z_Fjd(8_fa3a)(4I`#8`_|4M?g)L-^2^__%^L&{?(^}da0kP(J9RZX~?+7m+Wdvsg&
zJvNP3tRKW18TT#IhW0#|+j-dPR4+RfS8hV6w(a*lOSvxX>mdcb3(!)Jjb4T$ZvMR_
zCI1JvGNd}TCDI3Y+PzoXa+@#|oc<9YZhj07nb2um*LJ5#Uo-+_LJSg>L>l+&E6IT4
zgxDl@JeeU}q}_8?dyZr{n>^l3#F)oRYq2)&#y7?T1bj_QqpC?FY9w$PO+;Wp)0lQ|
zCPKclp(WP#VqM|p(Ghfoi8H2Ui9$f|U-|9}JeFY;Acn8V1<U$qOb?fpSVPL7U??wg
zlAVF|G|AZ&68EM#mDf4WN=(EKmpi5fB~}OuOwLDk&di(&<%}Os=VzE;mM7fQcAO%H
z%7E4+-C+e6X&Rb#YZIt}&q{upm3$B3^VQ@A?BjIBJ;O-TInXp0`l-PibGPtrujBfM
zk^Yk(D@GGoqJ&Y)o>z#3Aj2Z?K9fLY&=GjO1ky%~;|6}J?t^-{#LP4bN>}J!(wQFu
z@N*7zdue80!y$|2Kzk~EJ=4qK_0&T9<z+EwKX$o(F4-e0YTS~kA+M=q7xa`cvQ|u>
z6@syBif~B=PV$g|1x8#zN-z}Ct3xO5utCJKVH15+#(4&t_39t473!Gmgc2E_WT=%`
zgXejAp6nz<z*t$C51s1#QBQ|P`xTSWipkJ-u$y%IMwR&tbIcx9myo9LXWf$;yt=py
z?tcIMTF!q$nKHv*SqkS8$91Oe8eo4<aYP%S?CKUgpzkZ!xrPoZ3Ys`EeZnaS=u=~~
z_D~S&Kpb688;sU&r(%+(6hK=2^O<b?R53f0m$$jj($Kq(wC(EeYiVv$Gfr9Kzt{6d
zUCUIRcYj}xHKOKl#~K!3x@?3W9c*8-W=D7_h<88`@3|lovH9!qxSb1`uPRc(WxW;!
zPK0SiM9@fnK!UQ7tSk!Eu&rVE(6*~U4#hh(JU?$D^4rjCf}fhrAW~tuaL-mLgK*W(
zs#KW^xxJRryLGu@v~0;W-blkO7{=jfDL-nR8r<L)^ihf``G$iMRp16y`cq)7Ao!P8
z;CEg{Z3M3i3_RjwE56^ZNnlQ4*izg<hZlLW3Aa&OhP62sgp={dHWDKY1N)+>o&Azp
zyOP=vZYm-gP<8HZ)!7xsD;03yLr~-be9J{B?~g}w@>K3yPNc3MM{M6~NZsr_)$ERs
zGHS!z{CWx)N?Mw2r)gxqL2QLtczhOnmi6>Pjg(M<^z^DhRn=;0P%CgJESV!SPNDOs
zrUH+o<Fyie;NH_~?`PYqzo1$>zC{j9+=c;$hViOLxU>>ECGL0quRoIA6Xo0C+&AGI
zie<LvJoMtXq^!+8s>@R+KARnv`oqxFhw!|ac6bUicfLAJZFFa|6PDWM04AUQ0~{Ql
z^w@?8)^T{+&3##S<2VlPx&O%8ygbHPs?(jVveeQqI<hU>N@UB?l2rQFUy|A=+Y||q
zo_o*C$)qyE2NDE95Clm7@$TdHF2Bpqv)R&q{u=x~za6~#PWH8RvwV|}c0rm&+tpn@
zb$xFdC-XPUrhg0l&nRC<+yCQJglym+gBZ?=<uXhOvF8uZi!@78Ymg^z;nvU7Fa*<D
z(Q2Edp}$SGaALb;oDt5!21@PDip>s8l)Xg=qFn%%s<%p$0?f*b7U4DrQ|*fF985Kw
z6S3#uQ5(fk9;QJIr5nf5GR&h*&2V&-&|{j+=q&4j{yt?$)*w!jw_qIx3kwA>jxs;o
z?DDUQTGDKnP(M@cEUBGs_=zHP389Um^k(6znanWKNwnRDsb9DG7_GAj=2j^ye-Xyf
zh7M})*Y=?K&ZiT?pT|iS3Q64X&n~qlY4~15X_)zhY!hvRJP~s#r;KHlt!n2_&$pG~
zo29`#%oIN+Kf|r`W4A?q3v=n`d!k$jzpn<(8Yeqy`luk2rKGbp&4h{kDA7@}MVLk(
zVZC5jgGG=BezA>`Er7~mRK!LXm5EUzn=q<yTa<SF?&FuhQn*2$r;krWiAVnAjQk$W
ziacchw5+QrCVE5vnt2KNGn>Wi7l!(a0@~BzT{?dXtl7f%-iss;Cwbztl_h&T-d1N9
z<jzAt{=cd1kDn7Zb+VRhdf{v1kFTOIUYw8#a|YZe@<WM(*m&4o<3YJmg157a>F<9(
z|K2>k`0kvn@lLYK+(nw~+za}H{#L__Y)02txeexNLO-4k{c^r|%s`jF%dp0~G}`8e
zVEw{7B9>l8WaK)HF4Y9nWU2$5CXWcz&nR9PZ#2_{J@GKVP=k|nwtC&!>K&V{9F&TP
zhyfrXdSaGFx9KYG^T@BJ5BYr}9NvDoZu`BPWFEviZMUW(VXeZgw+Ls&inTZJ8GD}L
z;e=h14=yMP{jFwjuF8N;I)0id;$QUPlLc%WDtDm#+&gDK+3!kB_B&y@tQQxx`vU6D
zrD}Ji;u81f3c^FNH)3u#%Cc*gNr1d=A?QPbK283B7~ClftH1eT0o_5mFeV(X>81_T
ziTmSw7iJ3BV&jO#B5wFSL^S=fM>07!z&8<0HV=?q$iy%1#{+bf;im9AbUehO68Gaf
zq#tB?%kN<Z@UaKq4&QkpwJz^*{P|`_R`@iJg81^C(5kRFI^sAp`v{Q~_14IL*C1Iv
zK|0bq7UEt!LG|`A*selQH=ZHgkO)fLk!MIpESvTuB>R(aJBRh=1*%<r0uy)V1*%<-
zVFojdKOh}Z5}3F*KcHIn6i2{u`3cps9)XEF@)OdL{r!hxPkuo)tWQ|tuKa?I$#b!b
zVPo<e(i5q)#9jFfn)`0u7sS~73muz2p@}>6FLd@lf9+sHqr8beE-u`5)E<Crj@m#8
zrP$Bym=xQ1ikcK{3u<(F#!1`{8_K1pA7U=b8qw_sQWIv%`+64nx7aFrL-(i|xMy=v
z5TuFXC~LtI6r<?F7xuxKD*Me2++}tyl+h)7Y!QPib+=!(0~WFP3)F|6ZKR07-=IG9
z?(ak_Zj@Q{Z@onLcgpy(4U34w14u}{n+XvM^(~~Dn=j(?3=&qK|1IM110<|opIF4=
zmof{vw<_ZCFQ^;6Zls6>XmM)w7PmM#uSy+K2$_qz6RSx~8ZsB*Z<X;?quByZuBAR1
z75#1zCkHeg`y65s2M@%d&sh|4c#sBaZ$hwd;3`j!z3GRW9j==4D*J6hVdd(xu-9i3
z;Cs)~!MH8JgW>(uKovGsd4xOe8E$-sQ)v&#k_wf}@KOU+B$uI@V?U`(HFt`w=GhO`
zcgaUQ4V?H#prx+$I&j>^YFif-2?~dP4AS1lF~@ai0y2i2|A}KKnJb=e4PLg3FwLlh
zpn`i*Rd1!^l4A<~Q+4=NI0*ZpI3z=VZ|{d262)|lA(z!M9gFidRMRzvKDP+rS{{IO
zm)j2D*v&xfbTg!~xiUL`Z;Ru#IG3$9_8D{$UR=vC-D$90K_|z;7YT*gk2acvl!W>q
zcc(X!-CVlNpKZah$;E&8;S_>~BN?c7o{;asxPca~Nd3Zh1=!6d0KzU^sa9VkxeXP<
za-;(*Y^=hLK*`w?;qRn+cKHq#MTQ3zHFPC!C_EQnmEl1}4P9SJ_24PoM9`*2(u^l>
zN|X4(xW8n$qiLDK4@G_*N?ZIuD+yq@kg6WyR;6EcYy9(U7>|DaH7mXkh;_BBU7F1O
z4PE2yG98y0_~$eXuLVsS&6Dj%nC9+Pnrs-2_dpAWF5M;hLp}bdVf2mGDs&h{r(wjr
z(GH`xlQ0_Hlx0vHtJ`cVWmO7d(k;2U%@U>*LQ*H%?E1)~e)91$h~rs6t?O}&>vHeh
z-}qr&C-B7T^{&f8furJbDef>&gDB64=;An>=ax-ncTI(sCn>{g<$gJ#QuHa=b&a~Z
z`sKU^_isb*FW(~_NaoH*IG+#)C}AItugPx|Z)!dGmzRfgsuWItr|fR0T;Fdiz24=c
z$>z@}$o%;_NTFoeE|?Qv4yZePH6l!Hc*<PPjm;#UCR62hK&dJcp5|OiQ%^yj>W^X@
zkI^D#5l<dU8|*%juRAIhgIFGsD}el1mti%O!#P`+gmr3@rbd&imsDQwoG@87$u2Tc
z9-1P#)jrRHsk5@aXWxRibKe@Ym>smv;^8Rj)BmPDw`x<+^{vST4Q;03f&=0PMb+3?
zgS}EusLeS7fS6`SP*xBWHt{BLK+N9kt1NjwSFS-F5P))x6#Ii^GkaUa+Hgt6MqHD}
zW~LnEnyp(Cy8O|9W@ppXf3^HeYrxh<3X;jY*eRV=>SN`gtM>6+y%<-CedTSNVZT@2
ztI~jWBcVLX0FSUN>fMF7rTu^$;}Py-z^9lsSVn0($*vWam|=H`apwfIitv&#%GdM^
zdVNX$g~O}=UWSa>II^H$g;-}+_D9dIMGmPqOa6q5wpQn85xjdzeq1sk9V^nc!v8@-
z>NK<e$IY<wFPEP4t2Dz=ZN|YeJ4|+Ylx&Ch?0=58q*MiZvfI;^_5ZXjkKt0*7VLz&
z?%Pp0Kf-xE<C>%SOKyVvFM4m^rwW}Hb$fS77Q{+EN7X;3XOvUN9}*v!I77tOYA(zn
zv>t@E;n+__Y$T&9(}8M+vt;oFCG}cTr3SMaZ3fU*XxIFMbd{m#y_Wu<5iAo~D7YaL
z9C21GdlqD*C4Mcy)~0*?0Am7h6(>O-gy`g-Eh5}0B2jX>qR@*Z*j+mWB<NZCYfq3V
zd^7ZJAH}GoV2h+5ZFfbkL|1-P`$gHDEW`^K33KvgB;{;7%M`!M)xNt()V{lXSNra2
ztM=WuQ0=?xrQ&yrd~X!_-YI@}pDKOloGliLA8r*tBx|+WhZoU@;)h>qLUgVY#a`cp
zYHH}*CW^f#>%Q8D55-LFL$Z3SeyBD_ou_rI`k|s6pHw^ZoPMc&_>!q9xO-OQY9@kt
z=W1VGB)OyZ<z=ke&dY7FQT*~<(U`f{o1NN7x;II(Q~UBZ`B3Z;ajf1|zf?3s?nA0*
z4A@zr;+J`#$er#Wl)m(cxm4`DM+~O&r{veU;-{ZMq-JTnDOtVW)IL2AQbmjCohRE&
z_0u%S73E6S0##vMMcY74`%8CM_0xR5R{XSxRonWI6pG8HN36IiDzW40pQg&67Blrv
zccI$U@}5&=eSM+#$f<q$a~-Ck>Zehx_~~z&{iO8ikW6k>hiEtr=gCH`3B!vdjuoxe
z@bXU{rfLEk-khar@~QUiBjnpKFI3w=>~S8=RllY6A!^@J>z%0iO2e0J7A)1qV#JK1
z;*=O&gv+3a)ml6vt%&{$)zoM7BTDl^(c+EIW@OVAC`xWjY<V7S3pII+uYz1%GsgEH
zVVaT+vD(+)i!jSor~mjVjF-x5_Jn@@BZ&99Da?8Ph_WcR2JC-)dg&w~8v@B_lomm@
zEKL=ZEXvsq07|wAQGKJ~4+I%K3&4=&n;b!wm)fCBW|d?!nlXr=TUILvl&%gKf$6r3
z@DGA64rXDDp`#U!2)a$>fI;crGcsopbOk+bg3#I3xJO7rHt-pSa7#m<2*ORcnT08W
zkjz^@0TDWla2C;ag`lKn(2te~N@~)Gj1ZJDn;tomlB}KxN-Ek}@&`#7N0`=r1Zfn&
z`ss3`0&Ff%8i#1Ez^?M7Ig21cNy#6=G@54!Ql^5NWPv3uvJgR9-)WB`rCON8SkkW?
z%a!ITB1oz7L%j)(G!3&HNeXojIMUB3#;8OZ&co;<#E6MD*5BnA(t@TO#mNjwx(!f@
zSg<r4)VNYo`fLb-lo`YY+h8h_mjB}i^{FI+wz-xbLCXvqJx<5d!lnRE8z(T2ho^;(
zE>8=cdmiU$QN{?`XtRsKyCjdZ<;d}6v{4zXN6{i>MQ!qu9&aOP>8_9fp!AB`NAQ-0
zqXlmlINFrfaU*FnT1Shd&FN(t2-+-KZG*f>F|_51fSZFworQ{^B|rUn71URz9kw=>
zxYu7XhImd79nt{k*AF=hT~xtkC^0ixL7E0%XyWQ{2S;2T_n?Tu(Tompb$Wy%2FF8q
zVz74d#NfyXPYkv{UE=Zt2}R7Zma)WO)5jBo?H5m6Y=aa%F+SH3p7R${!`QMqug)-0
z#8@RM7xWZ2pUWL3(uT1mu0BwK60;VAou?tUP+_enBgPs7MjUOIupJjqj2&l2ybV9_
zoQW|AHX6hzOTvi3ju20bwItLdA#DckHHWQBvMXkBG{+G~vxs=hAoUzoVNoJzL>PC(
zc{K2m9&s)Wd`gcxZVB~3vDC8&YWaC;;`D|=j;F59oKe(zQY-57V<>gGef_A8A)(am
z!ee8pv-<QMNsW}+Hq7#H0X}OS)loA#)ZlIKh+n#9RSu3a^|+d2?D@em-x@()#%JOr
z18(ug{J|27z+oD{Owy1{Z}7T3?na@B5SA$NGMo%OP8qi+%zhTGHo!<iO`e8}Xij#i
ze)x_cXWq2Wt}@6F<ZLOd)&>OmC(UdkdJ_PT4<@|UwP_tFdZIkw=-{Mt-U46PCVX7K
zx<e5_Zx0TZHrRn~2SB?8dHMz3ecOZ1%rCakxnBb`(N3t{w7Coq>edu=0%jP1W(Fc#
zz$TH-C{VYMo(~aS%wa;TGePL8(b&NZfxw$!m@TLg+JS^_SPv1PyBV9$;AkIo#vssu
zGSy|U_fsRZTTrk*S^RF03In<UuMtYS+$c5#!RCWRVZKfl&@-PJqPDK}+(bZd8o`=^
zfnW+<Y4-*XQ4VVmM?r>ws3b}J!&$P7vNZyt3E#ur+ZuvXP4FB&gaA)cdp~Lb_I7RO
zh_!;wGCpZ1WLe4JV}crkmj+lt9X=YtfRfp32pd@Uh&;gK;_k15h_nvdJJJ&HF3uhv
z?1ku@jfj^4GUj{!T{Zg<hR7M!laH+J`8s5o&<B<cViBCGZNzVnn+rHJF>A<Kgdj>c
za3WY{RO>A(5mldWiY9xEbd3HJOPy{ssN?dVNNRRY45xOvz!{#rT*J}iG{0MeytGAV
za^{HP$=R*|PtNXw(IC$^I^$kO^x@<lmlv)<Uq=7%^em}Dhn}8_YS6R1aUFV^KdwPv
z?n3bNET3G1p5>Ke=!blMxduQL6wm-*2NfCsW!||4K$(Az0T^}i&@~XMd~^+jYBR5a
zQ01p<B9IM>211puu8DwL$48y~bqvC|o5!vT5r^8XK#F3#7c#^{)Oqe25Ou!0E(AT!
z#X~eF4>}NK9=t9DJ;2a|pn35c5OsdMCIpRxYC>S$r*SuLUIU`epVxq>^XN4o>U?@l
z2o??1gV5BAI?rAMqRzL+Kuq@X?lmx){Cf?ICJ$d912@$sdwKb~7+CF??B(feU^Myq
z8W>!#8jn%u@9Sc)#%N+_%CyPr*T87<`!z6{Jbz6L^tNuYm-nxU!P4F|G0KAkJVsLw
zpn=iU1!!P2^#K|fO`QM&qdviH>jgAG+PVP^khXq61Ej4Z&<3IP1ll09u0R(A8x`w<
z&^iNM5Nv#{1A^814hS~V)&arV#XXRGzSad{r!=}CSQFh%sX^M;4hXAP&;?<23%Vd*
zni|_4IqQPxDjRo}uL+`SW7|3h4G{hS8V}OcJ?Mhy8l|=lLKj3=PujW&U63-<K_5iR
zvbFURx*)oit*xKX0BP$e^gyb53Ji#KP*<UW!qr!3pm22-8Yp~HswPTVccF_?)?etO
zu;hGA6f@E->oPP@xcUqY6s}G~7p2Vf(MQpgE?2*yfx^{sXrOd*nBXY(VO@s?3}4@&
z0mIjM=)iQ+)zC0}-G>%TTmPW}!`Ff6z;N{-8Zdlahz1N_AEE)n*NI?YoFnxjx;S;+
zhz3rlenbPOQ%8cqagWuL=mHsQQBz-{0o1KC(E#e!n`i)a>rQllI`t<SK;1eN4WMp4
z3I@nKT9=}Mv{#>^fwWhrVgw1j+w_jst>_?i>sK_8_Uc%4kh=9O8c2I}Ef}QX@%k1G
zsQt`s4XFKk7agd*x))t2uKq;>YQGLf18Tn>MgwZUF2)QL+9(W<*U4a@MuK`74XlH@
z84aw1`WYRp{W=;9)>u?eqXBkUSAzkY2<vMQXwE=fXM=%rdh2Zvh_0nncY{H86zgx4
zu-OZz_49g88hpwr=*ZO+mQ^ZOTEqucyP~cP*I~R1)B1kp@{LHp{Ns*$6HozzuU8S`
z{JOroKKjt#U`OAqFNk6<GTR>zn(OlY&A~(Se~>>4-o|v-LAG}PqCe<wP=>CU;dR;b
z<6NnGHDqd^jpj)l6FXtq^gZ%x`Z#<}uN<Gy_s0FIei+m!&s?L}dnvRwau`;>v`rC@
zD-$Jq%yi`2`ImDxi<HGb;^CE)PyP~g`Hm-hrMn~{d?o-st%8DhwPZZMY~ZU%F7Vl;
zcFxj`vh0FA9!lanllSSBJ}pX=X-|Z67`s*+V3r+8wrnjmQO<m3?Yyh)S-Mgd=B#C7
zLD*Q<Rk=8lsl35(vq9V(j@#81!_NWn8*=>EQ(+jEE{NrbV_Ck3gyHFdczPU9`f3h_
z<4~0&jp10{w{qz}t5$vt$B`;WYFcco;&{vaBptqEMZV*@<ifHm-VbzRfnhm;vK&_&
zGYq#gRl(AdOYeqO?qS$W71_|osXg@UI|p#FT*l_2jtOD-U8o9=rZ2ig8v_iNO9+=S
z<#H2cC~d!jaIzfMp<olT=d>{VzCmWS<(1R<xsGjMIR52}p9W)IUG+YnGWMj4tuDR6
z9Xm_KD#bO#1lyAbexJ8zk5P8xZ`G+r_&W~)N*(_J@E8&v)8r3^%?*Ifn6SBCAQzKc
zV1I5R6q`F>f6(Uk9>B;WjP6lJ_5r|UM7WUuqD;egpx7Si2{4AyBY=@*Q%?1f6NcN9
z%;GtaX*1~pL&oJX#4SqCz;St^S$G&mF91dp%7}%<F`Rw?yYx)M@EArvA*$xqobVm{
z1=I=b2IM!8&(A1cVEFtCS!G?U<vBV-?L05zT%%_?Rmqry!R9X(Z-7VqGD|fyLw%FU
z8Ts)<i)|1A8p~{e#*qYQEb{>xM<qZL$joZ_j624#29W*y_<FO8u>qMGEFe>}VvoLK
z_|0+r&<@H1#LsQ`v3&-HVF+Sq*9@^{a0y}OVzp!i;WE)ukTp#8$&brzf$CHQ3z{)j
z>`eBY9?4=jzCt(-@lnq=pwd%DWk~QAr}VMR6uM_co?t9t3|0p^qcDBgfOQ;gl(wMp
z88p0X46_8nY{Yoslwb$%6+Ytqj$wxNX;ZLjJkyg#466)2bs4WSnl*%Bn1d%6cBv}B
zQhcHHe;8IDV4Z)-P<{H8`+%PiO_+3{l_R6x4ZV;L(}O?Y;|=Sk%CWf!ml%#;synwh
z${l0?>^}gH5#cdS5{&fh0q7WvMnTs)F<09H@v|tur?OrG!_9{4#zUQnb@`6r=t$?&
zlwJ>jm`}C??#!s^Os(;lF1cX7PQw>zYHbgqCf@g_FviSedk8wbu~@kDhSkepxQ#$7
z)nj!(7>1MTk*}S9S%XJb%7z`O320G#s_%rsusV~@E!f6p(uG!EZ^>HwEly^bK1@M6
zKpD|;c?_p>XqV_QD2CAmlo2w<XkUU<jWBv-HRKppSI|B^ry+{bH}#o1{!!gehvB1q
zuuBWXM?cD|OfihEA&ka9q6{01u>Xc|nh;J8>^1-ltA8M@EQj!VY)Ydr{BC5HZbV$y
zpolSkxqSob%-~0J1p=lgw{Q>aCoSMPXLX<$j(1>=F5}qvEEuLgWdmkkV4_Dh_{f7@
zK8ZN;umeaEmHR|~VB|Cd56*x^2d1?A0K;$&W;kvc-d5!f7{;Ku{e<yE2Dj}{?iYcA
z*^@3bAez&30~<ZJmq>=#P^P_t1<_lE*aH@O4Ld<<IAT5YNZrM7u{>VYc}yseGkTL0
zhS3{jXG1wngET}PLfA2|PiRkl1L%`OInfgWY=G9@0=sohuiC;eN`Q>eQ+Ow{f8+D&
zJ_w8n+yT3B7a}+9@6e@+vBTzQ+bP^nYWSg-;|wTFmh*{WlmqrvB_rIPv{2_WVtjIx
zZhSyZgigMl{Rtc;Y`U8L2hc5#a$;8Ro|W!m_<aF8hD}<tRm1movU6Xy_n2kF8A-Du
zFTS=2i|1TQ6U@sr0u1(p)K|TVwt)H!4q9=qM8~#t3Lph%?M}&wq`3l@afVrHoLr6!
zNfl|4-GOv}dW9KI_gad3jlzAF>h?{D+0eMYutJ+9%nfhZqfm(KL|0Y)lASk=AXC0o
zJ$EJ*%T<zM#Ili(;}V1WN2<}FY?l_<bEU{PNwUKrPo+YJ<d<;3x6&rxCLb8X;r)^~
zxxh>p?<np#ZcY=)lo^B17RMcYrT7*-<{M4R=h6@p$6HF59oX)J6VbZ@bUt4rpoe4W
z#^#>vHPUE-QJUeERB0YV%%mTFm--Loks}6MRbg1E=agP3hftT{t8}J5q|pba{e@KM
z55)`tJhG&^LJ!G7@f{BRZ>f?$6_Bic4*Eq34GVQ}(2B~!?Qq$~wl-)PLUl%SS$8IM
z9AM?9T$i@exdlu~<gmXKut6D!E%w-x>iu*2g#kX7st+s)kAuFG%HxGy(u~3WEj{5Q
z*tF0U0}j^v0gKneLP@R8k5^K2iL^W8R5}C{Il(MblZjL%Ur^h)$v3G={-h6XV4xqR
z(7)*=s2FI;&d9r_@4z5@ya~j|t2B{4aD>pr$(wXq{fN@MKm`~k9}43drkHU(gWNha
zz9c_Do10cZ$M-fgiM00R^DFus8)BTNkUmUkA7Czb+lg}oCx{2$a=L(UvRuZBoeQ1^
zag5-13GNvzK;CkaIREr+vKKPp(~JTkwBZV@(Vz%?+mUZzk->`ITTXw0l)+)Fz)|>?
z-8G2apkzm1!9ei(8^a5<g==~J1Lp;FJLSAO7c7?Q&fl_#;B*7&)rfWq;_tS6Zb8zs
zD@NFj@Ev$^!A?wCPWLi<G(MYAzhI78n(o2I2;{G}y?6l2>xI64V~|tlvQZ{DdgCa9
z!FTvH1@4AgUXNh0!5rw8(-W8z%%5&KJ*#q}S(e@vlFN%C7j_E=WAcDnAb!BKfpLPx
zI9gsmA(9(1Rv3%@3&O^-Dn9gO2?Vp>AZAX<?4^9j0>SQInKiY~GK3xdSG5;QGCSQX
z+!XD(NyPIlkKH6fv+aTRh>Um!@=i?3{iriIqjx}0>notq*N#oP?2X+mLc_j9E_-*2
z%s|{=SBrEwcCHp_xdw`gGAy62axVhF4RWoj2#!O;G)=0Y#U=d}d9U*H(?52zayEl?
zZcIA|I=62-IES&a29y`tTV6=B1e~)4CbqPg$g7MO3qZjo2Yn$uxjw@LtQYdb+Gzkd
zi{y}h$kVmSrXJO3n7T};w!os}oU*Ls%Cbc%i!_~cNPv;p3gzxwoFazOgoF_rRvh@5
zJl6|#9vR9H_6RVp&GKX53u12r%%NfUuUsApW(I{ogKJ%||GlP9FCr#UI8!Lyh*76k
zp)?deWY9JSJ5^}*W)mQwm(rXEmy9f?(aUprcHKKl)0fgoWPih)3M{|NaWP81l+GUe
z2Gw53CXofp5mRQlR8bHI(|l<X+?XJf|KgNHn%rrla92b5U}BVHC7&+$DXztTD<I!v
zmW7pc!gvp$$^{NuI%me;i!jS^sRk=>SPE7^)lQ$4LMB`h<Hl8<M0$rYD=YcTL21i+
zEYDLTVop9W*wWcEz6x?Qx_kybg_{V2EWc{`X^lBNU;iu5AY0?~ZViuApRxCE5z}Wa
zoj$`G^r&tW5;8H_|7&^T0s%(JJ{l_M3ubag=L#8zGhCbHd!FYgM&;B-PYTyR1#=WM
z{NS(Da#W>3v{0C?xaB{3lN+xbwJVHrxiX@XYhR_wwWBIRi~&EMW4~%1#G$9t?3!Kh
z8#&_+6QF|uy85}*oLBj+(y*KrPEyjeY!6n0-9ig=lAfcMRSu)OBws^{55^sApzJ|c
zF1E6d;Va=ZLLNYG`ZLLfHxYeY03ogoSX|ibhAlW}1M<v7%O_Eq;p_?l{0vXvVgp@7
z*mh^vKl0XqUPt+rhq&S2fpayGxpwaeMj2*Srl47AF-~!kK`zN_nPvThGpfc0F)$h2
z0RdmT(Dox&m@^ajGg{*g1K51Q=4ce~@xMy23BDil@jqV&n2GrT78q<XZu{^F;WVV2
z0L7^-n?K+V!BXH`PG9o1@_LI&Z2JPQV34xuwgdmc`9K|*yK}<n_Gn5Qz1)oD9JDu_
zS*2@6U*gXE&nPD_gEGaV#9=q52}M4xMQ+)%APcR5&(J6a*A_wbYlG1w%L`G+f7Bj@
zUNnzFPpEqwrCIeTwnEl|WiOIq7KeUFv~yuiF4(^==|AfCswdm<Pwvmi4rMSXvorv0
zTXSt2v$ow9`Tsx7d*hlnAw!z{kHiNZ*wKjxw%p7hMs;-hQ3bZ`jceQKhqP_n@7-}L
zSK6B41O1s=uJ4x<-Ot#2RyDwJ<HdK3_Q>9U^xYbkV5DIivKJ$NoVq%Awp%qWB>zkQ
z=5Ld2xY^}jnz$1YF0;RS;FBd8V3tPKi&L3iyWU+6vtqf7{)h=!I%P>wrc^p{xCMMZ
zjxwM1QB1>MhG4gsA-LHtXgG=b;(e4UvZT}Woq$evvO(YK<29aqm&lS6QTMM)B)AkM
zV%Jd;s^%*4rmq#D*Uzn8Af0M~Ttq7}KY`TU#tx+$148<(Dd^621kYb4sUK~2afLBb
z!02wsEj!5kyxwk9Fk^)gN|M;whMzDBPI**GN>zf<jI%KJIaU)DvG9*)a6LQzDDnQp
z_k5Sya%%Pl5i#sOYjx$gAy8-o@YEB=omrg*qfc^fC$`a5OTW)^b$#}5Hp?hx-zzPH
zXJi??EL%)pcuDC3t-1t`qiUfWH!B{kCimAw>UC$88gZ`C2x}1j3Fbt_2xp7z3drwI
z<kz}I)E0x<a^3g^?HCH0;mu>RI(g^pC;J`5=^u{M-coff?7EZeGB2WA#4+0_5>dTg
zPS_uK9aCyRz#8!VXbXVZ%$7}Es74Lgw4<Ma+A|XiM9`GcqP(HJzNx(aH;C<=V+(bk
zjZJ}tMk7G3D5zDTPOA)0%%!L;=4a-LV};na7*mS1UOP^w7m;Se46DW~*Bs1V&e(vx
zX*T3^BNpqn%<zzH`r2cDMsHgWV_dIP|9kaFbXsvb-Pmb0%dld+3maozE7F#idrCgp
zQ9l1m%`31iFfqJV8Ps_%k~}2M*wqdm{p)x7$1?T>!pR1;0bvn5zOx6eBaYjs<W}C;
z5YgI;w(TB6V^_<tsth&A@~g^`DUpuE`{v0mT$q7kp+hMY%WPrttdPp`*U=)%c5(0}
zqaWsL!e)_Kt%_OJGy5C6=uSAPoaH9>F2Y%{qQA-5jA#sD8!nnwj-JXtusB9TeY~#s
zi^a{@1!32st;9UpeuQc6UZu%~ecrwyap^9}AH@u4;X5OtPgkllAS0GflRq-_stl;?
z0<ES~=fKx$@@xcgzfw>hOi-TRK1`v&!y!x5T@@nQk$#a`I=)_n+x%?%RZZqnBQ5K^
z$ns><QO17gau__&FtCY}-$W|%sV^$?>MNYpnUpu1sql!Z2YP6l?~wv9b(Z{l&MJ&|
z>~17VsPqD>Xz$(6gicm@{Ws?qvI_9CY2m**ejU)GAXzV;cFuUPIYYQM1*-=_6X|oU
z$dx*U;hXTH^FvRf!nbUt>lA3c`LP*cUC79X({P>$FHjb@>zf|1GvDkcWNFHyAijLJ
z!}l8ZA7xx&pC4rqjyRW2*sdRHpu$F(w5)qC@pKf@GHC<JCO&8Gi~@@`Re}Ya6`7Pt
z*VM+i)ViqfF=h$bgY5Kn1Qo8-xTsxGv2Ue_kve9ftPhz+^*(<tRMh`eVMVHHOHEGi
zJJO<t*+W%WVZ)xJwov%eq0o@oKk%T!uKufpDeR|lFO0pT)zNa>q?sW5p8Q?~A7>-z
zRHdKaL|LxFq&i9W>XUSUVdbw{QekDx7EP!vI&?3NvmMTgC3_f+_VK((GvUJ<VzpPi
z!;Q-1ERK`U-kV*-Y!d0+dXhw4;T+2V$ikT>H<o=*1dH0{$i1%KSB!+XH`3<zy<j99
zCFfoXSJ>PqRanvZIC4XJ1s0-l>w4%RIVP>^h<ttE8#!j}tL4z|so7&U=c%yLu(I7d
z<`kGU#ZYwn`jm$|oY8XvsT0qhEfcC^ETgZU-x303ascsdT_TNkrDlP>ge7W}E1jl2
z4_*n|^ivH~*eK((l)a7F(KXlfR*Bv2e856+nH@Z&;XGXQ+}JGCYj-DCfMt)YKc!mP
z^HP>b13X8H+EZsDL>(!jiaP6^NflH4#FnsC57JhZ&ua-=WnA4^p=(DMJ(KEg*;L=_
zE5;T0v`dpUxC^s9T)<W+wxFr-Y1Soc@FU8iSrkY47eIJ~=%JX!(OiYue&n}gV^4>7
z>HI0MW((hA=Tep%(O|Z}OoJ7To>~qIZeLaZY?Cg9oSKYSdQi6kZY<ct7Tx}YQs1oa
zi3H(9*eSq@-$M|>=Bluw2{v@4+XcycW<u*b9O*)fx;>PdmHyYvgt*VjxI%gUl6G41
z=9gHWCT(H!z;Z|Xho=4W$8c|c4b2<D@)ikV&7A#Xso_a1;g}Gy-LDESta&;fgB{KQ
zQ%b0!OX;HA^OBxeJtG}h;gsAcq6&K}HIY59`w3h1M-5cesL?>zN{CuEl0G8S`zoMt
zbVt`(xWeX2EpG2igF;x7rm}t`zB3a?ruRtfy><l_y4K5b2o*KUX*AFGf(#?GHq7#v
z5n~a(LxVZ$zbM?RE($l4Szj}i8c^v|kV2i4+Jye68b!EcsfX6{OrsEVtOhDFVB@KD
z-u7K$Eo|0{3|8_4qtJehe`z8Mn{567`}p>8Y|`RPsKq%<bs3vA07Lru)mDK;GY(#J
zU(`WnT@4_2Ul8l&cq^T~y{}q|74KaSSlHk~8CNukCzkr05Msy;iTK4%QQszVC#LVQ
zAtCJFs<6V|ewQNjy-g%+*o!KxuwlQY!@!=25YiiuvmN>~6Vomed)G{X1>S*S-(Qjc
zFIsJHlZ67W(tmk8nFBLfN#|_;YpOy+HF?!U7Haoa9ayNJg~HSozw;_;+L<JJ$u2|(
zC}sU-W=B!ZBuY79I~=HHHbjS~tW&eSY9HwAa5*>2W$$rL6;|zK2=o{RC_tyCIgA0H
zE51<a9llUW?+TKpV_z7S9QV#>rymz55Sv@mly3o3Dy-G&cKBVMre8GRs=`OBUv^DH
z*DeKaoWrW{DzC`?T%AH<NBsJ$Q%;~m1N6;ox9X=^4|pIaDP&dr%kT(wUVrU$=r73_
zc~{%BbOl(9>KkGdxb$eV_*w<>Rk$2q(4V(OK4Jf)mnv|a)Q<S;*HD#==k*B|w?jwr
z+T>uA2NcB5r6(c>_T}#r_#j7_n42vkbN0^(#)dt{+v&?cG8L9RODvr1H>WVi<qN!>
z9^8PZ2Ba6aCm02`FYff=?gU)eCRc$AV5~)|dT(L~MBtBrR*S-1JsWZtwjrliB+>7u
zK^pD_<N9{wE@(&YvK=`~-jH*swZsJ$2KE%0c&e-`6Yhdy0cAYxNFuwOVOv_~!b<Ci
zMC(^dJ6r;J8A|nVr)V=Be3NH)mrunB5&n@UjP@PM2J*z}>WM=kf;2g^dC5=+Ay36*
z4;BjPjYj@G`aRp!-_KsdJ^wv0nxf{`v9lvPg+OA~J?_3`t#q#71o;wlN21W1?(KPX
zR$#C>i4_W@xz)|nsX|4Q=cH9HqzVxtd9`exroYP#M)^Fh5J4KhYhPj&Va(3t$!_H{
zX+nfcsTl5hqW?2#4g`DjOh|q!J-8}g?-K%iR{-d3f&84IdW%npAU$W`p4=0H7(Z+{
z+`!FDXR;k^sb(i|fDf+E5OLAUdOZx-%#<!)tu9`L*vgK5?Xq0SOFrIvXTzIxHh$}y
z%!!=5$Dqxm6)Wt$RuTE!mS>t)Z`KJRq;<p1vv)#>b9qwNy4NJl?-kO*X1xgVVz}z%
zHz7j*&AK!z6p*q|-eTQR)wyX~@-y1o=FU$McqpHmQ{jU?A00I2#8%*A#-4O;JMMCo
zm$9+O8ik4^_p_=u8HET^KZ|=}R0tyVw#xTDh4h8OtnT%b=3fde=<zcamRdG~G`j4u
z=yLgcjcpsk7DuiZp6U)87MNR%wQxnzrp2X_bB_}Cl^N(BS>H+BfN4-Z@rP*sy(#dX
z4m_&vjeyGXqJ=9|mY?dd2!a1HhTbD_lj}WydwgdxS)AhFuYUbig%fsB9<eof?`VE;
z$_07AQYa2x{KZ;ss<+r>ATosAqi3;l<OVpk6Fp$z+|E?vM8NibXyJ;Q8xGWCLa+vh
zjwZ6O$y2qsH%6nwb3@o-jSjC=!|p(NUu)qCrG2X$;|I3)K@V8i;70&1LPMU+!S^W1
zZ?$6)m}E?@+4VC^oy8_RML3SWx2?iOZv*|52l-xEeK=P*qKnJ=8iXP(jG_1FQKovz
zi0VRa485ldpQ<JqWPSeAKow1}rKLJ+(b8B>6(hE=hF>X#abY4}UgJT94SiG!7-N)q
z`D6yVXY76`g{y&5{*4C}O4;;6L7&#^nAYVf7K+dP>t>gyStt(9>-&r0nyV4I55S9Z
zj+RQhM0(2pt@#sBWuzfimzXIBsx<PjD?ugyg}b)PSQlE@Xla<%E-?}I<iiYfk3IR)
zSqp^HUXA1y1!-efV>8fVnXIOY=ldWvSzRd}`U53>tph7;?1O580Sxv@9Tq=)kkkfP
z^GzR6Uhm}?txj=#IE@Z6uU98XMmW5weI>i<a&(vE>pDHRd|Rgce`|o5YN8Nu&V*XH
zLiLE0vXX#pjq#wuh89ZsPblmBVFtQqdVlFyXQ7<e1CZ5#OJ;4EWFVH$dZe6@0#cgw
z6mTRCLzZ6e>OO^=NKY#FYG?64rFqmq6^i4B>ajntvA?x&h0Qg&C^qkscNUWM33hsi
zb$jbm+&REj#j`jHG6h}-yS+L<D&Fa>XUfTAKy3;2fQ9N3spa+nTN`Vj3Y)rB1x2g|
zi6QJBlb5PyK>=l5XyJ;a9ocHRO0dR8o(8J0sT0+7OJHNCs!5oz=3c30W&)dgt%WOW
z?u|MudU8a@&#{uETe1?Jpmu)m)kF~wt=gM|{P<|DrR~CDewBNDIr!u@ij`5}MmyS=
z0`F1Go!npvuQ?S@)l36bDC<HM6d~#lL)bl%{?f9xLRr7c(_yA*Fn<H5{JoyS4W=)W
zb*B6431UNs?>@b%$A%2Z=%`~&50u1?^{doRt?xGkweRf&mqeTgad+u?J3%7iOBO2d
z*gs-oFXSSRnBtR&YVV4uSWRE5V69kPHijd&7He&sWJTJQ`$jUhBQj9WX$ZL%nNS?u
zb+$c4)@=P=nF=S(4$+sM6xbXLbQ6FO4|Q?^GkkS$VMbzHEE7WU7;g6kvpa?6UL`4g
zrACF3=0JaolbHgW<DnJevx~=hr&M!Zq_bohWoxK)dq05|9lk~WZd~SLD)R$AsoCBP
z+2>0I7WKIH)$&X3A<j-P5{IvzXOfYytm=AF=<RJB+1{lv`3ZKQH({>AL%Ulej_gQU
zWsX*chhp1zTTgKcneCm67AKOK$B`ZE;tLgj&237&r}P*ea?;EK-HfWk_TvOj+`-E7
zaUy{ZIkLlA`wy%R(xoR%gPx`5<8*_?7Qk^_Ro;&465LMDK2Kl~59RmgBwX_OT7`?L
zOM4G5o&AGViwV;Nx*CfW<ByVJup5*g(r^*YgB<i~K|^$4KfVmRiR}CG?%9L=>(?p9
z%xf=NKD_bv>$GwmHAF|}+kYpR35U-k{&xzgIt|f*#{73$nOY6e<vYjs_wM+8fMsZD
z$dZgw%k_Pq{lU-X$u3+Fn~0;%(~#I-2zB|7F3Hie2qGx&Bg&%Oqt657)`0!Pr_TmW
zCs=B#Q+VoS6o+_fs%d!YO{mlFU68Nw)bzSD4eET8<Ee9c<0G8fDye5Q%>hroq;Uy6
zIlDwogPiW7@Z@nY3u6uPWFBacvqc?G{+@;L5>H-i{bYwAw=1=Y^yr!1WE%8aKS)=2
z`VG5{6i-jgg`Z&Poko6(XuHA#P&@5MOFRHIwnU70fS66dTn~V(k9Yt&2(#pm9sp?t
z9^fNLqW~oXmm5Z0A9#c~)NKP!3_L=fe&G>nrw@<7^m&skG!cp{#3R(ZW*r2o(n+j|
z@Re(}VZIJhJOZ6pNQa6;NW(1GLqNJl9KvT5YiLwjJ<Nbdpgr(+xdsAJXnz$aGd%=)
zDx`;?rw<f?Y^5~Xz)UsS4<ZoCfB5w2>S$J=rk2<4&HQj%Z151w))L1v)`mdME*>II
zP%a=3fz%2f0y)V&&Jm@}z(YivU5wqkdfd{Zrxy%@HboOcPn>k^SkmKhJOtgx6C54w
zq?Q}Iwd5eMJ2Va=rLU>!L1grOMLmd|-kOYupjVj%d68;Bl<Sz*WM>N*J*mY*ke~jX
zzE6#S7`BT5*|mJd8W?kWCXfcW&C`%uNeY@ahsR*%GoUw7>tfLBb96E2%?g?r*kD!%
zgC;y`Vql|UJO)<Pc?@iPjK{zl!7fHVUu$CQ=y`=E2G$z$7+71%V-&RDS`*`Q9cj1Y
zOHWUkzrc){CWfYtm3~XAWk1Tzzn(p1t2Mj11&_hHf%PVb++wR~*BOSU4PqG4c8S^m
z^B9`?!7#Srhju%5ESW+ZL&uIW46IAYV`$nj>W!r#GAuA`-LYLUi=(*~Ml_4awgaQ<
zqbe9rh6I12Fyfp#w1$j0uMTZOMje-odhMDZvk19R@gOOCuUH#|J`Su2Vnnb7d*u-i
zQU)A8g1FECX;)2K6C`7~liDD9g58E$9xkva_@g@5N>v0KzZmh$?~LZlAwb5}EM^Y@
zl9g{)<am@aN>^5R;8DthRu;e2=+UywbHw^3<L>bY5ztZxr99w3o*j<cd=Ebh*=uzg
zD0PaFAHL&J*tUf9YZK)e9)+#y)l!B>`K0MqMC}6HLD+=X-Kv^L6Ncy>Hqt!l94?|4
z=Lvr%MZDQ?i}Akf!NKy3N}=fBm}*a+eqp00_Ml^FiY?OC)HqEz9cjvKE~AUObOoK_
znFdZX$MxF7=BI)2qFysS8YLQ?qvTv?e$hp)vB?=8h+iB~wx<SaM;;keI0QoO9Bn>F
zi!4{nHe<Gr4G=xlpc4b@`PD#ed;qJC7QZ>Cf<i`4YM^q(Xl4ll$mT<ZEcY6Dz*!^J
z2EU&DcqC4fSi>}s*zBmL%0?Th)PsOt9EC@!gq_zlig={vlnK2TsF64Y$6A3yB&->*
z_k%y!t%2<vv6aXP%qQ@Le~4MyVh^=yC|*)nHFx;f62nW_^VSF`_lT^pBk1lg;`kgb
z+dI-O?Ecvv9&9+NRfvceg;{3yJl$$y<L#d_s^>NFR`PY2MgNfv`o3L7m>#EUDcSN6
zV=*i5IWYrWBhMl{ZMs3zqB1Dkt%VwG_5G&E$Bh2AXmU|Wzv<ugang+uoVfhEHV(_g
z(7|!J*s2Mj(oZn}M5|?t0F@Tf01$IiO#rdYmkA(RSz`t$-<Z*(@<d7p$m2?Hj3AXU
zWfMp&Ysw4~%{?%J#L9HcAkm5)BS_`O&;$~z<1vE7N_zB=hJ1C85vVFEWCV(x&>4X$
z%YTeOm6bqxP@_&!kP)n^KFA1G71%L?RaFfc!y?;FBUn`}kufZ7?`PDhFw(;scZ-e8
zfyJT0mT8M@ycf_m0ah0#83C(nl+1zAGz=49&C#40u(F8B92h<BGX+LVn~Z?fRZhmh
zXjI=An7*4j?v_Cr0jn#bjDXd}QAWV(Iw@mdEZT1h%$T0lg;Yks>Y6G&u*qI|l@YY2
z(#i;0Q*>n#O?R?S_DZqLq3LVeWUoNW2wGFCWdw~o+A)DvS8$m_V+}NhW^5Fi5-%fY
zO|_R1w5IUO7@C2N{$#Hl%orL=12%?M9^aWjYwE>}pf#mqM$nonG9zeBL75g>o!QaW
zmKlL-%gl_xwH0SZ;M(FdgK)GC%^(~tNizqhAMfqL(LyzIaQZRi4xIiR>%i$plRI$w
zR(%gHpRdiqu|rpLaQcf*H&sx3o#?=^S~zoXtSrtP+?TOg(Pp%mgEObbTuzZOICE=7
zTUciVj!$<n0oRn<nS(QDKHDNZb8zPLt}V?o2UjL)nS?WBjoaEib8zOYaa+-61g<Ua
zGX+=G`RTz~2PJ<-@VM$fBY0dPpb<R2=)f3WSsrK(udEa_iN`9!jNzFckFu1|2p(5e
zXatWdFf@l(=1Q8xGd3Pv1)>o=t{Bk>UMEdd2hTn%Q8WU`S1TF;<O>(g0Cv)e4FK}x
zjD`T)%0?rAe37FWK(5}=2q0hjXatb2f;0li7ewj-I!9_F%^}uhl130a6_Z8~JH?ZF
zi0-jEN^_7WXk}AfX#}!cXlVqpTXSgyvRi&>2C`F$X#}!clxYOATc4>1=^ZWAG=jNT
zwP^%%uYl7qrh%w~ceJe23}&~&(+K8Xv8Nf#Zr!I5%)Js&J<Q?pYEUDf`&C9pK=*4z
z&4BKei<$%FDo2fg?iZ070o|`BH3GU{T51~9fPoqwFF4f$9SLerji4Tsp&CIws7N(~
zx?h~ChdLJ3sTzSjELqiqod~N}wQ!w*xR6y3*y*il)xvfyrSeui9*$zAYsKaN0`JQ<
z0`^h82zc7%nr&0#HW0_B-za{FA70kr-lfy?wT0`^zR@VQ0-o5Ck!85)r>`tKPml!d
z@-WGCfWX-MleDY#>W^gd=PY};X+x5!i#Djjo6qy^k4f<_ahyhqoYXXz!u86!$y5^P
ztJh-5_?423*0W3vUl;B2=gZ{pe;$9Wuf7pK7n1p<Vlq&YmZ}YNQB^Egj{A!g^-SNO
zN=V&aL}Jt2wPY-f7y2gYv9aC6aY;lA+UQHISJTG(LK|}<B95zikhEqX(Tpq6x0_vL
z5B+f5B*<ibMV)y;ruUstEGC3BvV5S5IiX~2Lpd3m&@He@nkF76Kan9C@kc}>NPj5C
zi>F}-n7O<agRm8y%vtLTo-_Ze{z#m!Bu)3Zd72))%Pe{gl`SLvOmbG387xj|26aPL
zUUcmpsmcXYWzC}B#y`@;y*oQ+TxZ9b)zs{FihiI|$tAJL%A?QRkg(f>NwW*%$&~0j
ziTjPrlJDmCs;|VAB%K_5P)B@zJP^@>R@I#5%jW~YPcc3AyvBPg&R@FXOwP`e{gsEl
zapjpL-je+P;;?reJ<(Xat{P7gSDdR;FIMG^bBN?mruOKbd>L^Icw)TBsbmU9h)QrE
zQP&hiuzURtB5tMV8W2$yjKe$^5;`hP2niw@(ec8P81j%7h5fKbgo6<?>n;c>$_HpK
z6_rvvf{?napuI?VFOt>JUfR0~jz}=l&Fv9)J^R!;$#%<=HMFiR_M_WfD?reF$68fd
zmnGjo3#tet6Q)D-6fhP8RtRN&tfMhq6+%pJw+x5je5-K1Rk+?bt~XtZF_^B#TIBU=
z!V(MCMH$vzuzof%TwiNZoKPsPuZI|}FN!!$;y7I%VO(gqIpwz~PzTh-f*uNNSzY2l
zMWI1`E;ud0Xlp@$bs25s2a?p{6Ga*kiXx2|MUh67qDUi7u_U-SMjNpTB;zg7ibFXX
z9Yib&9mFgO9Yie(9mFjPmH1u<v5P_n(ThYS8Z{yqhPsn&F$`p#9es;}pKc$3;FaD5
z!tSo_1=8LVA&bH{dJ2Y5&A%abw&5t$A=b9KJRJ2k$Qm?~3e<K5YMX=Fw%xjj>Lp}1
zC0eZjAaf2f*X0^yE<j_~1rlPeiz3Wig3P<Qoq4=gwh;SX&;so}h<z_#LH1g;8v7gg
zo<gP)m#p_`Eq9Kiay(y;RtN1qXFrtn7!K6?Hy_KF*6IMzCr*6H7EDT3Z0)0aoIS2i
z5&^sMA9LUx?ma-ee&NXe1l{<kbNiB<S`c1)cwe8VM;0ge8_#@l#ILt>CpeO&-wz~d
z@a9PxoQC7C&CEF&%kTXQUQEgK_m1Z(YR65GmHWZ_y8rAgvEcYyV(*jz2VN4p9m97#
z1nzDKd_soxs*gK=IqskO4Vk!LRay6*j-aqwFc0FTeIeT0#+jtPMG2de{{T3}<L>rS
z!wY!Yy;*H@;x-VT{v+g9_;^ma#+^IT3%NGeFB;h>i33<ZNg-T+eI?lrcEDa40+X4<
z!QSV2R=Zm73Va*SHup1mC7dXj@pMj5vcUe&7bdAow^H8;R^k11^73u8_zxpgaF*gV
zNjY;6x?@Y4&n2g1J(H1(k=OWSx|IPb3Yss}y$$yN;OwQCMn3)xUywCk&|F@e^{<ya
zy*O+5C6kns)unkS=GGmjw81QV+(V%30^DMWXR`dc63b7&M?e03{c}D4j=hv|>S@0M
z$w?+fn6lN1rZP|>lz?c9rvWvW6+-k64h4JRDHR^eQ|jHQU;44>p{1zRPH^vnj33Bq
zm5_9Kx^U!t=4>77NJ+*O-nhAdlLvJZYqQ!N6yh;ikV1VV+%+lOucR<H#uzzL8)9LE
zjN@D~jXS%VZ4L*1f-x?5wjq+DkW*2R9G4IZfsUrr$Q5q^OfR-1bu8n(SRQgdjvOC1
z9@vj|xj0Ql)7e#(l<H38dN_^{G8Z*t<V1Knn$9*~#RwY!H(RTPj=Zo9h1{3?m6JlP
zI!RWvGp)L#5bAZ$=>m<OS*D_={u85e=L|CvxHeO&AA$YmH`2`0=ElyR%shT?7Uz%&
z@-kg%@dGE1Yjx3^J7rZiqL6E@KUZe%!&+8MjwMq9;JB7J6u|MUJ=f1Ye!h2~$;~qG
zud%Oo3QGgEO|$$ln43RGl1(HlcdRJoj_;U>s@UDA5PVCyDWJp$l?-sWTW(+}_X&_2
zfO1nnNoc7A%HI%Fk^oA^mP*!ulCeby`*y48+yJc;ORc{Et&<bA?kY>SR${4@0b0q4
zT1}S-XiY4&J_A~l)3nyTC7?Dvjb-<S0(cgu@x1SE`=}^LMF4~c5J3P4k01gRn5O~V
zLEO>0sdg>jP%b^)z#5xsrt@^u`bGpv-2zgx^GGcR!KTy<l$rxlpU)$;oF1D}pFyb^
zAa!{bsc$1^Q|uBH`vizxfe299T!RSEzRy8~UjPCF5g33_fC$e3!cP$40YKm&!lDNu
zE}Pj)90eGl#wcxbEP&$fa{)b6*^j_p+XpwNueJNhr3dNvhYA)$^%+kTvU)<z!4g!y
zPj=Jk*J=-ST2(XpAxjCfnO8#7M%c3LS^k9COjU2%T!A)qd2L#4Ej1pp&FnMr(2`P6
zus2svdl;A5uWeR?C=aab0P{VUhn=R3n#U=&zH0l*WN8_hJ;TQ#PPVMidd7=J<smOt
z^cOj}N7bn^7PKH-m6Szs8Q!qsRoS!7@)og<PuEFQqxi*T3w28iRWm79=3cIZMPZHM
z+hRDQ)(H2hEYu25Cuxm$AJ1aDxo}iWZ;P(k@B`tFlqV2Yka6b`Qo=ZAukIClEv6sm
z#i^{vI;&Z~ePA?t04*ifh0q{XFOGTnQJ^x@4y2L8!mU>J-EOdKWX4(by~w!!f~2*L
z>?C;I5){y`Jw4E|4kHS7L|wbK!)G1t@b^p<EAq=O^iAIIBwqg}m1H%Xb$k-*_zQcb
z{F-iu6HiVf{;q2Kam3^#;viD55^fvbw-nq}*yHkZcc?TPSmaLS>o2N)!nSnbMr`{*
zbWSgw!&B!r{U9p0LA4j_fE6-hd2nO?d=O)!u!B%wBI_2Z%!c~i9jLnaNz^q~w?L&4
z&eX(bzJ87-!zobnb#xvI6ZH96Dcs(?ayK+}|E6_jok@fDrlCs*Le<Q#a!&Y(p0-^<
z<v7w4|D4M6>htT$7`}VO4y5dFN_yLRGY2U`XRl%DgKjutY@Ny76Xi4(Ggb?ZbETik
zOs{Nb)8ev1xJf4cD3dqbS67T*<{R?eblgqV_R@#Ej4j<P<)CY_3vSDEWGSZwam*51
z@px^X0Zw|*g0<Z~-<MG+G+U;5CTBQ*6kQwjeUkM}1>GnIdSv9k6LK8NzC&#stMY?9
zU2`nz%TUZ(=9w_dS!RO&2Vim9kBTw826)=FnA=j@Fc5~PZxs2Q%O(Mu4rEG0XVTti
z6j@GGJC>_MfIfXC$2k=OmMw-EFedx`yDP0&E&M(k&$cr;7Euu|zAV-KApHvgs5rxL
zgD_`alA)qlBAkO@iwc?|Ngz#0DF>qveu6b%AvkOYnaNQM<69~TN5xE<ud&EKPewm~
zJ$~KHf4~4UPJAJGBsro|#Mhi{=8`9w{t5N_!Dv{^Ztp~U%|QR@f#sysB!V_zP${v7
z(!6O{q&+NzU@&KjV{%Ok5>!a88wj<5gg2b2DiXCv4WO_BOwBU*C3);_9YEO2KGxQd
zqdnn|4Pn0x09ZcjO{Eh-%T+%RO`uR&MxRL952PG{yv+Apk)ps6iGs)#$ys#NS#-)-
zbjn$D%2jke1zzF`l|WUxK`D1$DQ8{<ruLk%^a{FSnfi0aau_3Z8Ka<oiJL7ED2Mq{
z4)diP=1aNDS6H7BjvNb>Ls+!i6|QK?CGF5)Y9L+{ocH5J{o9!#UL%gMey%BPyL2jc
z{ke_>acO0G-r(Dq#s^i*N=ZvaEUd$f>1Nu(AXepxiPcRYx_lGxK>b{j6_RvIV6j_<
zMx<K~lU-6+UQ-qVSY0ztJ-vKcVwDI|&Z=NyzL}>+%=-YbH*RK)s&Av3+>)m&&KbX?
zmu+M`p`t3#vw3bbf?koe*9kvDC!CO_TAipwomHk6WMW-~Tf${v*2sJUjr<k37dI#$
z>)Y!Qenz_r%u+T^B_Hk7D2Bt@>VXq-CY|=&x38)PrkeL#7qg-uSORZaN;WlRE*T$E
z{R^b~^L8P!t}_9f#b4Wq1oH}&HuT^26A8Nt$(;(k@SoX_B<%dJoC>_~pLhAk-{<rd
zT?N~xOgfhMFKHdSrL#%a%DSkASigcovkn8nHvmUF0BT*+Y%L4YWN7oYyiYgPk<jwE
ztPjkC<F)0<p=px#p1<KY-Py`S5ZxMT>&9;UuHA7e_DZPFEkoTyIz_uTJ`1?V^jD%>
z_h)5k*I5r%I&)ZY!MJ74W1Vk&ybW~r{AAYKd0uTgb<HX)BKHTWsnB}Yz>Jb2g*1bu
zZuB|b(gt<c+8^)O^&PA3A5!+on7JVN1$f%EmThy|Fbv0U--wWehnIuVmEFp^wcD}1
z(HTd8o5ap+2ikr5IZha`^+8E*$BX2Gf08WyEepQP7rTX>nn5;PUarc|z2p}JL7^3g
zoN=xCaly2~AXqV;nv9t(l=FqHe^ZmbeK-03WB(z)`3ezN8Y5v*k66MA_cWsdF=eX^
zN7v0u4NjI28ms-{Aee5Mp36jVG_%<xf;Z45swYEw!c!|pgQKH+SUp&z=U|Mo%uzFo
z<JsY@$wJUSrXij<t8Mpx78b8I_xjSD2KAcS{1aQZ0xhOAcl~vyn1w`agf+cM+=dOg
zQYj|j;t+Dv5*{^hrHW1#Vv(S<2WEFgKwO#nFqoFwD3>&2nYIS@!frcRsK0bVhb-AK
z$!nOBtzL#~4c28$(wU-^+<Fbs8O`=hHR#M<X;(*$EG09+N!jU8;=XW|=dSK#=uF^r
z%BQ*t5Lr&9!d0et+B(GZb417d0RX8ixT>|loaVQ#Z<vC$P+*i*t%hY_%Jo{@leyTW
zqUhpqcyK5ccfGgNbo7zlLS_5C6Op;6wC+jPO+U6QMJS~eE^gdsLLw*)sMb^yp`a@#
zsy0Yn9Q%VnUhTz2UhP{Ab@ia#VH~up;6XRk_2a5RGVT~MQ6D@eAL{0Brtl2o`hE<<
zk9AN%0F^GBD67%I<4f}Z&pHi7UYr@3KQRytom_XQZFHek?uU{gjMgm6s*&OV&!V;a
zx7&qRWy*BBZTl4qqMlKjwBd_si*5=gAI(`#%$c{)DPf*G$=1@`y%_KKwz@WMH6qca
zW8&-T?3_93J-@j>A$mRtywe+hRgv5_i#8X_@Q!^-2k|Au&Z6Ss4te+uxlhD#FSAq4
z7||xU_`OzT5xVj<^rj8%OEBi{6ByBSx+^1JEJN+}QQZ_o-P9&J38zNS3cCG2%K6(-
z>jPcgALKqf&hQ>kYo)s@VPw#Pn*(I0ct^~@G32&%m|;h^Zeqf`u!na4v(3H_eK+!A
z{0#$%&GUi>h5~rny^>#RgD@1u**7wps(YMvf82x6b%Sm%ml&@lXp)j#yU|a-+IEz}
zCdi=V<&eY4`4JAhl-rVWA9u;>sp=O&y#vNJ&PvciIvd{BNGM5J!vbX#DbcAN-oS($
zZ>*CDjp({c$aYdT?#(~ai85Z*2xs>YUybHjNVY`-o*W8YQWip57_tSSE9rQ0-`>r$
z_m9tKy?g^MtwXN%eoRg%^68)jS(g?k!3}=VvD}9+(muQ`vS`f~{!z3!u;6Sm_BxO)
z4`9U~9Er4Mi;nn%vjhDME@Jn*+25Z?IE?;8r1a*hJjpmu`ZI#7Lcz4P@XNLQQXVy$
zW^=6i^`O21=Ltj1q(JHic-qC8YjfH-6ozO25jMs)ADhc=v(qwd)19IHq7gy{E%F6j
zAjz+<WN@&9DUz&ACtorQ?{nUBd?ZT;@NITG+s(u+k7+XhxR75*%NGy?6)O?QA!21X
zCV3Uarw>2{8ONiW3HS?qo9#aH5xA<K3H9|L_+D;s@hBLEc`%m6p1}%m0T&bxLPbYZ
zK~`%)pNFu<1>O(Qr-TEXSE4at#E3vJy~7!13@_Vxg?I<4gaU)2-1`6~q!1+#`V&=m
z{gDUi+mw-E-O^9^>7KEYMZAK=QM@q}M~_MqjA)5ed6obQH+@c?l$sNPo%8|2yresK
z1O1(A#fT3G7wHs1O553&hU&>btd!LS_jZuhg0mCGod&kkrW^~<>N;+!epuo{T*%uF
z(#qRTm?$A&&`ta{@h3xd@<}xbgER;h&uTkTr6<M8nL$#(WtQo+=gg498DTaKJwW1U
zID`bT2Z)b!h>vunk94GubfkxL#v}++50n(hVlYK|@gjYAiS+vMfl<%M14geQ9~eJL
z5l=~R@`49H?@0Qojr3C+>8CcmZ(#?Fml99vO=5Uf6X}N&A3DbaNO}UL87p&rbWkj`
z#%SY=iU*xPhMs|@Xbl-e>i-(xaCbJ;P3zklD)Wj^%nsK!Gif+^RndcK&=lVcFdi-O
zLaypEfsA0f1SC_p&_We{M<6w$q&eX^6lh(4ea-`y8}&@+zgxcfaCh_L=l<XP@jnou
zlHsw+CKe15!IQsLcIxYCC(AhxT?6)o%W{$25nfUFtp7iTh+RTFT!@jNve;oJBAt(t
zC16^szB7#PBc0qa>Ici7wae+oAANGC`>4fUczz^j0W#b1gAIJ;5#Ceywfh3;4HN0-
z)2tCxQi_oX!UwgjJm?1}N_N;|NVA#EIWe^`e(g-nGBlBrW8Abc5Eb}I{Gr&>`pvdh
zB{&-R-`#*|2NgC08XNG|Y64={m&_OY%(bu@UtA)iyqbQ2OsF^0{WiqgBYfut-d~cv
zFZNkUUL1B`w-@BKxo?_5N*54q4#VFIbMhgxV`I#3th|{&8)L%$3G~X`$mKD#3*>AT
zZ4Wsc=sNi5nQ0Rn%Gp@gLH+iKPOT8Vlg_OTqW7xc_B$B|r(eoU7D}rt&z|NM{6>Gs
z{foL=i9}gOrwfv?4053FHkPu};xVhR(cNOsvF%aI@K9YJt6$B$s$0kF&*~+8HTAkr
zBLJE{*N3-jqSImC^a9WX>bMiv-PKE=<Bq(KyE;(E-R;#t&Fbp-+q{dvCRE2Ez8b3D
z30wBe7eja3(I?7xDSI8Ob0f^{w@A~|)Gsy+dVQ2rrwMr4&01-5;x-tb{v&+g<KuE<
zm(DibZMHMCUo^r9qT&l33CXXoWQ?)FV96rvPG%B9cn&>&Exob={(5}*V@$o+pMP2K
z?}Oz#u&kV95lCP}GW(H@Z1K*IY=hD#Mi5M#6utfiv|$0J03|tl+hge%T!#;V{}nSt
zU~E~7H--RZ1gGmBXdD2_S1Y_j%N}TMg0@$VZ3OpR6F9a!Be<D)Y-XODndfHaxsiDX
zTXtZC4**XM@Z3<Jo9Vl<?#&29{ze3{_RR=Phk%WTK=C^=xQZ?}&48O`z)dsYh8YZt
zJJH0#kef1i`wMAA!Hp?`70D90iVBwK8AY2OBwo)&IG~6Dn!{8Z8Ai{Lz(~9<p|BGg
zd_}t{AsKONil`IjK8a6TgE)&ILrVaeE;5nV1yJEz6KN4dv-qWlsK?V+0&_i3AgYML
zMXYHvj9?tshqvy;g+>4OgCKNT0BI+7_?cupKQ^1n5Lu(5-_%5%8r*i{zKQ#Y)eN$3
z$ZUzyK9B$a0RjYS0~^Dd(?KV$(X>A@`8B4SPm|F<|Gxg7JpB#aC?m)bA$yEK%&7k$
z<`wbrYJRDtB=Vw|WizP*Xel)E+oW5?T{$%z)T1npQN%2Jma=Rn=M0vS5Q|>`KFk_(
z>gbJoc0pOFr7wsuSC09l#HX$dpwtWWb8bs{l`wyTX&%Ej`MM+zZ$>_xpaoyos6Q#z
zm7d{|IqR9ziSiO+Qp8g&6;<yKw_t6_xr5eKstbRKR*=Vnzx-MLUTQ4V*I%7TqMOjR
zWU^9Q-E_Rh8VjGE+2l6NXO1()RZ!1uZq9n<lqjyddQPc1>zPw-IH^TR9)5#_VHi)h
zHrkf7J9AoVQ1bpsmIA(i4a6Txi8pfzM^HNlM!g4tZqdtVZv+}J#g?^!QSInXJ3-Y}
z>nJu>>9qVCbXo(!QVC8v1&tQOgO*MrwG`>~ZqUI=egPR@M+PggEm^>5(*mEVl$clL
z;#0nm$b2f^Jixc=@~uok#k5n3;3~<Sx}BprZ)7#vXm7e>C|wprwbs@{#oM)D=5%-$
zC!-x`Rrfwt-Lhr<AGQ;xafHQ9Az=+q{yja(U@rPlE414t6kJT`SiQmhosA~olAG`z
zZjN_U(0)fL`)N)!_rG}Xj&aGW))o=`NfC`^7prJ-H%l6&6y4jD45-b>d*_^Zwbyi?
zA$@kg$Zzu1VVZj!YfLA>O$*_nSqOs>{Iv{G(6ppcp24lk6SkJ;!I$QK!Ls%bKO4`i
zHTDhqhXC$>8BTjV<gQDtb-LE_0AYoR=&j{HJM<=LTGvH~F>D&ZTD^C%*|!EV1rWs<
zHDIYn*#jOfQH&FOJT>aWQH&$Y(ZR<?aSL;HAym&GTB1{hx;@TT&O%ZKo+gv2ZtgA(
zQ;(oNSUu#~kTv0_1K;YDRojfTQ`A4l&S#IaD@ghR2KltMC!Q%ihsvim+6qi1(P@uz
z10i2gs0vclsJR-oKIAlLOyS5`Ti@wtxETX$aO7;THO`3~#p{1BKf@37Q#^yJuH<D8
zOGOXWfq-!y6;s1UtmMPr&-cb23YNY8|HBHwXktcq+KUhJD|0S3%Fhb%b8{?BPYH-O
zG%n4{OwLb9jn7O;%_}i9$}Enr$V`bZE=epZVT>oJ-V~}nIX|x?Gp{ri0NWWPGynhq
F001nZAN~LU

literal 0
HcmV?d00001

diff --git a/nora_ssh/src/fair.rs b/nora_ssh/src/fair.rs
new file mode 100644
index 0000000..9cb3fce
--- /dev/null
+++ b/nora_ssh/src/fair.rs
@@ -0,0 +1,67 @@
+use core::{
+	pin::Pin,
+	task::{Context, Poll},
+};
+use futures::{io, AsyncRead, AsyncWrite};
+
+/// The amount of operations that may succeed in a row before others get a turn.
+const BUDGET: u8 = 64;
+
+/// A wrapper that gives way now and then. Without it, a client whose transport is always ready
+/// would keep all other clients waiting.
+pub struct Fair<Io> {
+	io: Io,
+	budget: u8,
+}
+
+impl<Io: Unpin> Fair<Io> {
+	pub fn new(io: Io) -> Self {
+		Self { io, budget: BUDGET }
+	}
+
+	fn poll<T>(
+		&mut self,
+		cx: &mut Context<'_>,
+		f: impl FnOnce(Pin<&mut Io>, &mut Context<'_>) -> Poll<T>,
+	) -> Poll<T> {
+		if self.budget == 0 {
+			self.budget = BUDGET;
+			cx.waker().wake_by_ref();
+			return Poll::Pending;
+		}
+		self.budget -= 1;
+		let ret = f(Pin::new(&mut self.io), cx);
+		if ret.is_pending() {
+			self.budget = BUDGET;
+		}
+		ret
+	}
+}
+
+impl<Io: AsyncRead + Unpin> AsyncRead for Fair<Io> {
+	fn poll_read(
+		mut self: Pin<&mut Self>,
+		cx: &mut Context<'_>,
+		buf: &mut [u8],
+	) -> Poll<io::Result<usize>> {
+		self.poll(cx, |io, cx| io.poll_read(cx, buf))
+	}
+}
+
+impl<Io: AsyncWrite + Unpin> AsyncWrite for Fair<Io> {
+	fn poll_write(
+		mut self: Pin<&mut Self>,
+		cx: &mut Context<'_>,
+		buf: &[u8],
+	) -> Poll<io::Result<usize>> {
+		self.poll(cx, |io, cx| io.poll_write(cx, buf))
+	}
+
+	fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+		Pin::new(&mut self.io).poll_flush(cx)
+	}
+
+	fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+		Pin::new(&mut self.io).poll_close(cx)
+	}
+}
diff --git a/nora_ssh/src/lib.rs b/nora_ssh/src/lib.rs
index 24f6e1b..08953db 100644
--- a/nora_ssh/src/lib.rs
+++ b/nora_ssh/src/lib.rs
@@ -3,6 +3,7 @@
 mod arena;
 pub mod auth;
 pub mod client;
+mod fair;
 mod host;
 mod identifier;
 mod packet;
diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 8f5ea45..d65e95f 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -1,6 +1,7 @@
 use crate::{
 	arena::Arena,
 	auth::Auth,
+	fair::Fair,
 	host::{self, Host, HostKey, InError, OutError, SignKey},
 	sync::LocalMutex,
 };
@@ -88,11 +89,12 @@ where
 	/// [1]: https://datatracker.ietf.org/doc/html/rfc4252
 	async fn authenticate_new_client(
 		&self,
-		mut rd: Handlers::Read,
-		mut wr: Handlers::Write,
+		rd: Handlers::Read,
+		wr: Handlers::Write,
 	) -> Result<Client<Handlers>, ()> {
 		use msg::userauth::{Failure, Method, PublicKeyOk, Success, UserAuth};
 
+		let (mut rd, mut wr) = (Fair::new(rd), Fair::new(wr));
 		let mut rng = <Handlers::Rng as SeedableRng>::from_entropy();
 
 		// Exchange keys
@@ -263,8 +265,8 @@ where
 		+ SignPrimitive<Handlers::Sign>,
 	SignatureSize<Handlers::Sign>: ArrayLength<u8>,
 {
-	read: RefCell<(Handlers::Read, host::In<Handlers::Crypt>)>,
-	write: LocalMutex<(Handlers::Write, host::Out<Handlers::Crypt>)>,
+	read: RefCell<(Fair<Handlers::Read>, host::In<Handlers::Crypt>)>,
+	write: LocalMutex<(Fair<Handlers::Write>, host::Out<Handlers::Crypt>)>,
 	user: RefCell<Handlers::User>,
 	channels: RefCell<Arena<Rc<Channel>>>,
 	rng: RefCell<Handlers::Rng>,
-- 
2.43.0


From c5359329164d7b956e9891c92405c6850c83479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:52 +0000
Subject: [PATCH 35/36] fix: serve those waiting for the mutex in order

A process with more output than the client can take at once would lock the
mutex again right after unlocking it, so that nothing else could be sent to
that client: replies, other channels, not even the end of that channel.
---
 nora_ssh/src/sync.rs | 45 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index 455e21f..d36927f 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -28,15 +28,37 @@ impl<T> LocalMutex<T> {
 		LocalMutexGuardFuture { inner: self, id }
 	}
 
+	/// Wait behind those that are already waiting.
 	fn push_waker(&self, id: u64, waker: &Waker) {
 		let mut q = self.queue.take();
+		match q.iter_mut().find(|(i, _)| *i == id) {
+			Some((_, w)) => *w = waker.clone(),
+			None => q.push((id, waker.clone())),
+		}
+		self.queue.set(q);
+	}
+
+	/// Stop waiting. Returns whether it was this future's turn.
+	fn remove_waker(&self, id: u64) -> bool {
+		let mut q = self.queue.take();
+		let turn = q.first().map_or(true, |(i, _)| *i == id);
 		q.retain(|(i, _)| *i != id);
-		q.push((id, waker.clone()));
 		self.queue.set(q);
+		turn
 	}
 
-	fn wake_all(&self) {
-		self.queue.take().into_iter().for_each(|(_, w)| w.wake());
+	/// Whether no other future has been waiting for longer.
+	fn is_turn(&self, id: u64) -> bool {
+		let q = self.queue.take();
+		let turn = q.first().map_or(true, |(i, _)| *i == id);
+		self.queue.set(q);
+		turn
+	}
+
+	fn wake_first(&self) {
+		let q = self.queue.take();
+		q.first().into_iter().for_each(|(_, w)| w.wake_by_ref());
+		self.queue.set(q);
 	}
 }
 
@@ -50,8 +72,11 @@ impl<'a, T> Future for LocalMutexGuardFuture<'a, T> {
 
 	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
 		match self.inner.inner.try_borrow_mut() {
-			Ok(lock) => Poll::Ready(LocalMutexGuard { inner: self.inner, lock }),
-			Err(_) => {
+			Ok(lock) if self.inner.is_turn(self.id) => {
+				self.inner.remove_waker(self.id);
+				Poll::Ready(LocalMutexGuard { inner: self.inner, lock })
+			}
+			_ => {
 				self.inner.push_waker(self.id, cx.waker());
 				Poll::Pending
 			}
@@ -59,6 +84,14 @@ impl<'a, T> Future for LocalMutexGuardFuture<'a, T> {
 	}
 }
 
+impl<'a, T> Drop for LocalMutexGuardFuture<'a, T> {
+	fn drop(&mut self) {
+		if self.inner.remove_waker(self.id) {
+			self.inner.wake_first();
+		}
+	}
+}
+
 pub struct LocalMutexGuard<'a, T> {
 	inner: &'a LocalMutex<T>,
 	lock: RefMut<'a, T>,
@@ -80,6 +113,6 @@ impl<'a, T> DerefMut for LocalMutexGuard<'a, T> {
 
 impl<'a, T> Drop for LocalMutexGuard<'a, T> {
 	fn drop(&mut self) {
-		self.inner.wake_all();
+		self.inner.wake_first();
 	}
 }
-- 
2.43.0


From 2c637af1c5f8af788a627eb7b353dae0449cfae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 36/36] fix: flush what is sent

A transport or standard input that buffers would otherwise keep it.
---
 nora_ssh/src/host.rs       | 6 +++++-
 nora_ssh/src/identifier.rs | 3 ++-
 nora_ssh/src/server.rs     | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 9c4a1dd..4f13b07 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -149,6 +149,7 @@ impl Host<p256::NistP256> {
 			.write_all(host_pkt.as_raw())
 			.await
 			.map_err(HandleNewClientError::Write)?;
+		write.flush().await.map_err(HandleNewClientError::Write)?;
 
 		// Receive id + kexinit
 		let mut ident = [0; Identifier::MAX_LEN];
@@ -278,6 +279,7 @@ impl Host<p256::NistP256> {
 			.write_all(pkt.into_raw(0))
 			.await
 			.map_err(HandleNewClientError::Write)?;
+		write.flush().await.map_err(HandleNewClientError::Write)?;
 
 		let receive_cipher = In(ChaCha20Poly1305::from_key_material(
 			&key_material,
@@ -302,6 +304,7 @@ impl Host<p256::NistP256> {
 			.write_all(pkt.as_raw())
 			.await
 			.map_err(HandleNewClientError::Write)?;
+		write.flush().await.map_err(HandleNewClientError::Write)?;
 		let pkt = packet::parse(&mut pkt_buf, read, true, BlockSize::B8)
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
@@ -353,7 +356,8 @@ impl<D: Cipher> Out<D> {
 		);
 		let pkt = pkt.into_raw(self.0.tag_size());
 		self.0.encrypt(pkt);
-		io.write_all(pkt).await.map_err(OutError::Write)
+		io.write_all(pkt).await.map_err(OutError::Write)?;
+		io.flush().await.map_err(OutError::Write)
 	}
 }
 
diff --git a/nora_ssh/src/identifier.rs b/nora_ssh/src/identifier.rs
index 1104336..19bfaf8 100644
--- a/nora_ssh/src/identifier.rs
+++ b/nora_ssh/src/identifier.rs
@@ -89,7 +89,8 @@ where
 	Io: io::AsyncWriteExt + Unpin,
 {
 	io.write_all(id.as_ref()).await?;
-	io.write_all(b"\r\n").await
+	io.write_all(b"\r\n").await?;
+	io.flush().await
 }
 
 #[derive(Debug)]
diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index d65e95f..10d2cb4 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -409,7 +409,7 @@ where
 				return Ok(());
 			}
 			if let Some(io) = stdin.as_mut() {
-				if io.write_all(&data).await.is_err() {
+				if io.write_all(&data).await.is_err() || io.flush().await.is_err() {
 					stdin = None;
 				}
 			}
-- 
2.43.0

