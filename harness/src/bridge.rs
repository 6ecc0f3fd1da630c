//! Translation between the reference representation and the types of the code under test.

use crate::wire::{names_of, Msg, F};
use nora_ssh_core::data::{AsciiStr, NameList};
use nora_ssh_core::message::{self as m, channel as ch, key_exchange::ecdh, userauth as ua, Message};

fn u(m: &Msg, i: usize) -> u32 {
    match &m.f[i] {
        F::U(v) => *v,
        x => panic!("harness: {:?}", x),
    }
}
fn b(m: &Msg, i: usize) -> bool {
    match &m.f[i] {
        F::B(v) => *v,
        x => panic!("harness: {:?}", x),
    }
}
fn s(m: &Msg, i: usize) -> &[u8] {
    match &m.f[i] {
        F::S(v) => v,
        x => panic!("harness: {:?}", x),
    }
}
fn t(m: &Msg, i: usize) -> &str {
    std::str::from_utf8(s(m, i)).expect("harness: utf8")
}
/// The bytes of a string of the library, which have to be a string.
pub fn valid(s: &str) -> &[u8] {
    let b = s.as_bytes();
    // Otherwise the compiler may take it for granted.
    let b: &[u8] = std::hint::black_box(b);
    assert!(std::str::from_utf8(b).is_ok(), "invalid str {:?}", b);
    b
}
/// Err if the library refuses a valid name list.
fn n(m: &Msg, i: usize) -> Result<NameList<'_>, String> {
    NameList::try_from(s(m, i)).map_err(|e| format!("valid name list {:?} refused: {:?}", s(m, i), e))
}

/// Represent the message with the types of the library.
pub fn build(x: &Msg) -> Result<Message<'_>, String> {
    use ch::*;
    use ua::{Method, UserAuth};
    let c = |c| Ok(Message::Channel(c));
    match x.ty {
        1 => Ok(Message::Disconnect(m::Disconnect { reason: u(x, 0), description: s(x, 1), language: s(x, 2) })),
        2 => Ok(Message::Ignore(m::Ignore { data: s(x, 0) })),
        3 => Ok(Message::Unimplemented(m::Unimplemented { sequence_number: u(x, 0) })),
        4 => Ok(Message::Debug(m::Debug { always_display: b(x, 0), message: t(x, 1), language: s(x, 2) })),
        5 => Ok(Message::ServiceRequest(m::ServiceRequest::new(s(x, 0)))),
        6 => Ok(Message::ServiceAccept(m::ServiceAccept::new(s(x, 0)))),
        20 => Ok(Message::KeyExchangeInit(m::KeyExchangeInit {
            cookie: s(x, 0).try_into().expect("harness: cookie"),
            kex_algorithms: n(x, 1)?,
            server_host_key_algorithms: n(x, 2)?,
            encryption_algorithms_client_to_server: n(x, 3)?,
            encryption_algorithms_server_to_client: n(x, 4)?,
            mac_algorithms_client_to_server: n(x, 5)?,
            mac_algorithms_server_to_client: n(x, 6)?,
            compression_algorithms_client_to_server: n(x, 7)?,
            compression_algorithms_server_to_client: n(x, 8)?,
            languages_client_to_server: n(x, 9)?,
            languages_server_to_client: n(x, 10)?,
            first_kex_packet_follows: b(x, 11),
        })),
        21 => Ok(Message::NewKeys(m::NewKeys)),
        30 => Ok(Message::KeyExchangeEcdhInit(m::KeyExchangeEcdhInit { client_ephermal_public_key: s(x, 0) })),
        31 => Ok(Message::KeyExchangeEcdhReply(m::KeyExchangeEcdhReply {
            server_public_key: ecdh::Key { name: s(x, 0), blob: ecdh::KeyBlob { identifier: s(x, 1), q: s(x, 2) } },
            server_ephermal_public_key: s(x, 3),
            exchange_hash_signature: ecdh::Signature {
                name: s(x, 4),
                blob: ecdh::SignatureBlob { r: s(x, 5), s: s(x, 6) },
            },
        })),
        50 => {
            let method = match (s(x, 2), x.f.get(3)) {
                (b"none", _) => Method::None,
                (b"publickey", Some(F::B(false))) => Method::PublicKeyBlob { algorithm: s(x, 4), blob: s(x, 5) },
                (b"publickey", _) => {
                    Method::PublicKeySigned { algorithm: s(x, 4), key: s(x, 5), signature: s(x, 6) }
                }
                (b"password", Some(F::B(false))) => Method::Password { password: s(x, 4) },
                (b"password", _) => Method::PasswordRenew { old_password: s(x, 4), new_password: s(x, 5) },
                (b"hostbased", _) => Method::HostBased {
                    algorithm: s(x, 3),
                    key_and_certificates: s(x, 4),
                    host_name: AsciiStr::try_from(s(x, 5)).map_err(|_| "ASCII string refused".to_string())?,
                    user_name: t(x, 6),
                    signature: s(x, 7),
                },
                (method, _) => Method::Other { method, data: s(x, 3) },
            };
            Ok(Message::UserAuth(UserAuth::Request(ua::Request { user: s(x, 0), service: s(x, 1), method })))
        }
        51 => Ok(Message::UserAuth(UserAuth::Failure(ua::Failure {
            alternative_methods: n(x, 0)?,
            partial_success: b(x, 1),
        }))),
        52 => Ok(Message::UserAuth(UserAuth::Success(ua::Success))),
        53 => Ok(Message::UserAuth(UserAuth::Banner(ua::Banner { message: s(x, 0), language: s(x, 1) }))),
        60 => Ok(Message::UserAuth(UserAuth::PublicKeyOk(ua::PublicKeyOk { algorithm: s(x, 0), blob: s(x, 1) }))),
        90 => c(Channel::Open(Open {
            ty: s(x, 0),
            sender_channel: u(x, 1),
            window_size: u(x, 2),
            max_packet_size: u(x, 3),
        })),
        91 => c(Channel::OpenConfirmation(OpenConfirmation {
            recipient_channel: u(x, 0),
            sender_channel: u(x, 1),
            window_size: u(x, 2),
            max_packet_size: u(x, 3),
            data: s(x, 4),
        })),
        92 => c(Channel::OpenFailure(OpenFailure {
            recipient_channel: u(x, 0),
            reason: match u(x, 1) {
                1 => OpenFailureReason::AdminstrativelyProhibited,
                2 => OpenFailureReason::ConnectFailed,
                3 => OpenFailureReason::UnknownChannelType,
                4 => OpenFailureReason::ResourceShortage,
                v => OpenFailureReason::Other(v),
            },
            description: t(x, 2),
            language: s(x, 3),
        })),
        93 => c(Channel::WindowAdjust(WindowAdjust { recipient_channel: u(x, 0), add_bytes: u(x, 1) })),
        94 => c(Channel::Data(Data { recipient_channel: u(x, 0), data: s(x, 1) })),
        95 => c(Channel::ExtendedData(ExtendedData { recipient_channel: u(x, 0), ty: u(x, 1), data: s(x, 2) })),
        96 => c(Channel::Eof(Eof { recipient_channel: u(x, 0) })),
        97 => c(Channel::Close(Close { recipient_channel: u(x, 0) })),
        98 => c(Channel::Request(Request {
            recipient_channel: u(x, 0),
            ty: s(x, 1),
            want_reply: b(x, 2),
            data: s(x, 3),
        })),
        99 => c(Channel::Success(Success { recipient_channel: u(x, 0) })),
        100 => c(Channel::Failure(Failure { recipient_channel: u(x, 0) })),
        ty => panic!("harness: type {}", ty),
    }
}

fn sv(b: &[u8]) -> F {
    F::S(b.to_vec())
}

fn nl(list: NameList<'_>) -> Result<F, String> {
    let bytes: &[u8] = list.into();
    let text: &str = list.into();
    if valid(text) != bytes {
        return Err("name list differs as text and bytes".into());
    }
    let want = names_of(bytes);
    let mut got = Vec::new();
    for name in list.iter() {
        got.push(name.to_string());
        if got.len() > want.len() {
            break;
        }
    }
    if got != want {
        return Err(format!("name list {:?} iterates as {:?}", text, got));
    }
    Ok(sv(bytes))
}

/// Read every field of a message.
#[allow(unreachable_patterns)]
pub fn extract(x: &Message<'_>) -> Result<Msg, String> {
    use ch::*;
    use ua::{Method, UserAuth};
    let ok = |ty, f| Ok(Msg { ty, f });
    match x {
        Message::Disconnect(d) => ok(1, vec![F::U(d.reason), sv(d.description), sv(d.language)]),
        Message::Ignore(d) => ok(2, vec![sv(d.data)]),
        Message::Unimplemented(d) => ok(3, vec![F::U(d.sequence_number)]),
        Message::Debug(d) => ok(4, vec![F::B(d.always_display), sv(valid(d.message)), sv(d.language)]),
        // The name is only available by value.
        Message::ServiceRequest(d) => {
            let mut buf = [0; 1 << 17];
            let l = d.serialize(&mut buf).ok_or("service request does not serialise")?;
            let n = u32::from_be_bytes(buf[..4].try_into().unwrap()) as usize;
            if l != n + 4 {
                return Err("service request length".into());
            }
            ok(5, vec![sv(&buf[4..l])])
        }
        Message::ServiceAccept(d) => {
            let mut buf = [0; 1 << 17];
            let l = d.serialize(&mut buf).ok_or("service accept does not serialise")?;
            let n = u32::from_be_bytes(buf[..4].try_into().unwrap()) as usize;
            if l != n + 4 {
                return Err("service accept length".into());
            }
            ok(6, vec![sv(&buf[4..l])])
        }
        Message::KeyExchangeInit(d) => ok(
            20,
            vec![
                sv(d.cookie),
                nl(d.kex_algorithms)?,
                nl(d.server_host_key_algorithms)?,
                nl(d.encryption_algorithms_client_to_server)?,
                nl(d.encryption_algorithms_server_to_client)?,
                nl(d.mac_algorithms_client_to_server)?,
                nl(d.mac_algorithms_server_to_client)?,
                nl(d.compression_algorithms_client_to_server)?,
                nl(d.compression_algorithms_server_to_client)?,
                nl(d.languages_client_to_server)?,
                nl(d.languages_server_to_client)?,
                F::B(d.first_kex_packet_follows),
            ],
        ),
        Message::NewKeys(_) => ok(21, vec![]),
        Message::KeyExchangeEcdhInit(d) => ok(30, vec![sv(d.client_ephermal_public_key)]),
        Message::KeyExchangeEcdhReply(d) => ok(
            31,
            vec![
                sv(d.server_public_key.name),
                sv(d.server_public_key.blob.identifier),
                sv(d.server_public_key.blob.q),
                sv(d.server_ephermal_public_key),
                sv(d.exchange_hash_signature.name),
                sv(d.exchange_hash_signature.blob.r),
                sv(d.exchange_hash_signature.blob.s),
            ],
        ),
        Message::UserAuth(UserAuth::Request(d)) => {
            let mut f = vec![sv(d.user), sv(d.service)];
            match d.method {
                Method::None => f.push(sv(b"none")),
                Method::PublicKeyBlob { algorithm, blob } => {
                    f.extend([sv(b"publickey"), F::B(false), sv(algorithm), sv(blob)])
                }
                Method::PublicKeySigned { algorithm, key, signature } => {
                    f.extend([sv(b"publickey"), F::B(true), sv(algorithm), sv(key), sv(signature)])
                }
                Method::Password { password } => f.extend([sv(b"password"), F::B(false), sv(password)]),
                Method::PasswordRenew { old_password, new_password } => {
                    f.extend([sv(b"password"), F::B(true), sv(old_password), sv(new_password)])
                }
                Method::HostBased { algorithm, key_and_certificates, host_name, user_name, signature } => {
                    let h: &[u8] = host_name.into();
                    f.extend([
                        sv(b"hostbased"),
                        sv(algorithm),
                        sv(key_and_certificates),
                        sv(h),
                        sv(valid(user_name)),
                        sv(signature),
                    ])
                }
                Method::Other { method, data } => f.extend([sv(method), sv(data)]),
                _ => return Err("unknown kind of method".into()),
            }
            ok(50, f)
        }
        Message::UserAuth(UserAuth::Failure(d)) => ok(51, vec![nl(d.alternative_methods)?, F::B(d.partial_success)]),
        Message::UserAuth(UserAuth::Success(_)) => ok(52, vec![]),
        Message::UserAuth(UserAuth::Banner(d)) => ok(53, vec![sv(d.message), sv(d.language)]),
        Message::UserAuth(UserAuth::PublicKeyOk(d)) => ok(60, vec![sv(d.algorithm), sv(d.blob)]),
        Message::Channel(Channel::Open(d)) => ok(
            90,
            vec![sv(d.ty), F::U(d.sender_channel), F::U(d.window_size), F::U(d.max_packet_size)],
        ),
        Message::Channel(Channel::OpenConfirmation(d)) => ok(
            91,
            vec![
                F::U(d.recipient_channel),
                F::U(d.sender_channel),
                F::U(d.window_size),
                F::U(d.max_packet_size),
                sv(d.data),
            ],
        ),
        Message::Channel(Channel::OpenFailure(d)) => ok(
            92,
            vec![
                F::U(d.recipient_channel),
                F::U(match d.reason {
                    OpenFailureReason::AdminstrativelyProhibited => 1,
                    OpenFailureReason::ConnectFailed => 2,
                    OpenFailureReason::UnknownChannelType => 3,
                    OpenFailureReason::ResourceShortage => 4,
                    OpenFailureReason::Other(v) if (1..=4).contains(&v) => {
                        return Err(format!("reason {} is not recognised", v))
                    }
                    OpenFailureReason::Other(v) => v,
                    _ => return Err("unknown reason".into()),
                }),
                sv(valid(d.description)),
                sv(d.language),
            ],
        ),
        Message::Channel(Channel::WindowAdjust(d)) => ok(93, vec![F::U(d.recipient_channel), F::U(d.add_bytes)]),
        Message::Channel(Channel::Data(d)) => ok(94, vec![F::U(d.recipient_channel), sv(d.data)]),
        Message::Channel(Channel::ExtendedData(d)) => {
            ok(95, vec![F::U(d.recipient_channel), F::U(d.ty), sv(d.data)])
        }
        Message::Channel(Channel::Eof(d)) => ok(96, vec![F::U(d.recipient_channel)]),
        Message::Channel(Channel::Close(d)) => ok(97, vec![F::U(d.recipient_channel)]),
        Message::Channel(Channel::Request(d)) => ok(
            98,
            vec![F::U(d.recipient_channel), sv(d.ty), F::B(d.want_reply), sv(d.data)],
        ),
        Message::Channel(Channel::Success(d)) => ok(99, vec![F::U(d.recipient_channel)]),
        Message::Channel(Channel::Failure(d)) => ok(100, vec![F::U(d.recipient_channel)]),
        _ => Err("unknown kind of message".into()),
    }
}

use ch::session::{SessionRequest, Signal};

fn signal(s: &[u8]) -> Signal<'_> {
    match s {
        b"ABRT" => Signal::Abort,
        b"ALRM" => Signal::Alarm,
        b"FPE" => Signal::FloatingPointException,
        b"HUP" => Signal::Hangup,
        b"ILL" => Signal::Illegal,
        b"INT" => Signal::Interrupt,
        b"KILL" => Signal::Kill,
        b"PIPE" => Signal::Pipe,
        b"QUIT" => Signal::Quit,
        b"SEGV" => Signal::SegmentationFault,
        b"TERM" => Signal::Terminate,
        b"USR1" => Signal::User1,
        b"USR2" => Signal::User2,
        s => Signal::Other(s),
    }
}

#[allow(unreachable_patterns)]
fn signal_name(s: Signal<'_>) -> Result<&[u8], String> {
    Ok(match s {
        Signal::Abort => b"ABRT",
        Signal::Alarm => b"ALRM",
        Signal::FloatingPointException => b"FPE",
        Signal::Hangup => b"HUP",
        Signal::Illegal => b"ILL",
        Signal::Interrupt => b"INT",
        Signal::Kill => b"KILL",
        Signal::Pipe => b"PIPE",
        Signal::Quit => b"QUIT",
        Signal::SegmentationFault => b"SEGV",
        Signal::Terminate => b"TERM",
        Signal::User1 => b"USR1",
        Signal::User2 => b"USR2",
        Signal::Other(s) if crate::wire::SIGNALS.contains(&s) => {
            return Err(format!("signal {:?} is not recognised", s))
        }
        Signal::Other(s) => s,
        _ => return Err("unknown signal".into()),
    })
}

pub fn session_build<'a>(ty: &[u8], m: &'a Msg) -> SessionRequest<'a> {
    match ty {
        b"pty-req" => SessionRequest::Pty {
            terminal: s(m, 0),
            char_width: u(m, 1),
            char_height: u(m, 2),
            pixel_width: u(m, 3),
            pixel_height: u(m, 4),
            modes: s(m, 5),
        },
        b"x11-req" => SessionRequest::X11 {
            single_connection: b(m, 0),
            auth_protocol: s(m, 1),
            auth_cookie: s(m, 2),
            screen: u(m, 3),
        },
        b"env" => SessionRequest::Env { name: s(m, 0), value: s(m, 1) },
        b"shell" => SessionRequest::Shell,
        b"exec" => SessionRequest::Exec { command: s(m, 0) },
        b"subsystem" => SessionRequest::Subsystem { name: s(m, 0) },
        b"window-change" => SessionRequest::WindowChange {
            char_width: u(m, 0),
            char_height: u(m, 1),
            pixel_width: u(m, 2),
            pixel_height: u(m, 3),
        },
        b"xon-xoff" => SessionRequest::XonXoff { on: b(m, 0) },
        b"signal" => SessionRequest::Signal { signal: signal(s(m, 0)) },
        b"exit-status" => SessionRequest::ExitStatus { status: u(m, 0) },
        b"exit-signal" => SessionRequest::ExitSignal {
            signal: signal(s(m, 0)),
            core_dumped: b(m, 1),
            message: t(m, 2),
            language: s(m, 3),
        },
        _ => panic!("harness: session type"),
    }
}

#[allow(unreachable_patterns)]
pub fn session_extract(x: &SessionRequest<'_>) -> Result<(&'static [u8], Vec<F>), String> {
    Ok(match *x {
        SessionRequest::Pty { terminal, char_width, char_height, pixel_width, pixel_height, modes } => (
            b"pty-req",
            vec![
                sv(terminal),
                F::U(char_width),
                F::U(char_height),
                F::U(pixel_width),
                F::U(pixel_height),
                sv(modes),
            ],
        ),
        SessionRequest::X11 { single_connection, auth_protocol, auth_cookie, screen } => (
            b"x11-req",
            vec![F::B(single_connection), sv(auth_protocol), sv(auth_cookie), F::U(screen)],
        ),
        SessionRequest::Env { name, value } => (b"env", vec![sv(name), sv(value)]),
        SessionRequest::Shell => (b"shell", vec![]),
        SessionRequest::Exec { command } => (b"exec", vec![sv(command)]),
        SessionRequest::Subsystem { name } => (b"subsystem", vec![sv(name)]),
        SessionRequest::WindowChange { char_width, char_height, pixel_width, pixel_height } => (
            b"window-change",
            vec![F::U(char_width), F::U(char_height), F::U(pixel_width), F::U(pixel_height)],
        ),
        SessionRequest::XonXoff { on } => (b"xon-xoff", vec![F::B(on)]),
        SessionRequest::Signal { signal } => (b"signal", vec![sv(signal_name(signal)?)]),
        SessionRequest::ExitStatus { status } => (b"exit-status", vec![F::U(status)]),
        SessionRequest::ExitSignal { signal, core_dumped, message, language } => (
            b"exit-signal",
            vec![
                sv(signal_name(signal)?),
                F::B(core_dumped),
                sv(valid(message)),
                sv(language),
            ],
        ),
        _ => return Err("unknown session request".into()),
    })
}
