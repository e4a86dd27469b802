/* Stands in for rust-analyzer: hands its three standard streams to the checker and waits. */
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/un.h>
int main(int argc, char **argv) {
    if (argc > 1 && !strcmp(argv[1], "--version")) return 0;
    struct sockaddr_un a = { .sun_family = AF_UNIX };
    strncpy(a.sun_path, getenv("FAKE_RA_SOCK"), sizeof a.sun_path - 1);
    int s = socket(AF_UNIX, SOCK_STREAM, 0);
    if (connect(s, (struct sockaddr *)&a, sizeof a)) return 3;
    char text[4096] = ""; /* the arguments */
    for (int i = 1; i < argc; i++) { strncat(text, argv[i], 1000); strcat(text, "\n"); }
    strcat(text, "\n");
    int fds[3] = { 0, 1, 2 };
    char ctl[CMSG_SPACE(sizeof fds)];
    struct iovec v = { text, strlen(text) };
    struct msghdr m = { .msg_iov = &v, .msg_iovlen = 1, .msg_control = ctl, .msg_controllen = sizeof ctl };
    struct cmsghdr *c = CMSG_FIRSTHDR(&m);
    c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(sizeof fds);
    memcpy(CMSG_DATA(c), fds, sizeof fds);
    if (sendmsg(s, &m, 0) < 0) return 4;
    close(0); close(1); close(2);
    char b;
    return read(s, &b, 1) == 1 ? b : 0; /* until the checker says so, or is gone */
}
