/* Preloaded into the daemon: its fixed port becomes a free one, whose number is written to the file
   named by VH_PORT_FILE, so that several daemons can run at the same time. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <netinet/in.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>

int listen(int fd, int backlog)
{
	int (*real)(int, int) = dlsym(RTLD_NEXT, "listen");
	int r = real(fd, backlog);
	struct sockaddr_in a;
	socklen_t l = sizeof(a);
	const char *file = getenv("VH_PORT_FILE");
	if (r == 0 && file && getsockname(fd, (struct sockaddr *)&a, &l) == 0 && a.sin_family == AF_INET) {
		char tmp[4096];
		snprintf(tmp, sizeof(tmp), "%s.tmp", file);
		FILE *f = fopen(tmp, "w");
		if (f) {
			fprintf(f, "%d %s\n", ntohs(a.sin_port), inet_ntoa(a.sin_addr));
			fclose(f);
			rename(tmp, file);
		}
	}
	return r;
}

int bind(int fd, const struct sockaddr *addr, socklen_t len)
{
	int (*real)(int, const struct sockaddr *, socklen_t) = dlsym(RTLD_NEXT, "bind");
	if (addr && addr->sa_family == AF_INET && getenv("VH_PORT_FILE")) {
		struct sockaddr_in a;
		memcpy(&a, addr, sizeof(a));
		if (a.sin_port == htons(2222))
			a.sin_port = 0;
		return real(fd, (struct sockaddr *)&a, len);
	}
	return real(fd, addr, len);
}
