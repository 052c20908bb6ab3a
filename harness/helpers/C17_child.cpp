// The process run by check C17: does what it is told over a socket (descriptor number in argv[1]), one command at a time.
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdlib>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <vector>

namespace {

struct Command {
    std::int32_t op;
    std::int32_t n;
    std::uint32_t seed;
};

bool readAll(int fd, void *p, std::size_t n) {
    auto *c = static_cast<char *>(p);
    while (n > 0) {
        const auto r = ::read(fd, c, n);
        if (r <= 0) {
            if (r < 0 && errno == EINTR) {
                continue;
            }
            return false;
        }
        c += r;
        n -= static_cast<std::size_t>(r);
    }
    return true;
}

void writeAll(int fd, const void *p, std::size_t n) {
    const auto *c = static_cast<const char *>(p);
    while (n > 0) {
        const auto r = ::write(fd, c, n);
        if (r < 0) {
            if (errno == EINTR) {
                continue;
            }
            _exit(99);
        }
        c += r;
        n -= static_cast<std::size_t>(r);
    }
}

} // namespace

int main(int argc, char **argv) {
    if (argc < 2) {
        return 98;
    }
    const int ctl = std::atoi(argv[1]);
    std::signal(SIGTERM, SIG_DFL);
    // With many pipes in use on the system they get less room than usual.
    const std::int32_t room = ::fcntl(1, F_GETPIPE_SZ);
    writeAll(ctl, &room, sizeof room);
    std::vector<char> args;
    for (int i = 2; i < argc; ++i) {
        for (const char *a = argv[i]; *a; ++a) {
            args.push_back(*a);
        }
        args.push_back('\0');
    }
    const auto size = static_cast<std::int32_t>(args.size());
    writeAll(ctl, &size, sizeof size);
    writeAll(ctl, args.data(), args.size());
    Command c;
    while (readAll(ctl, &c, sizeof c)) {
        switch (c.op) {
        case 'w':
        case 'e': {
            std::vector<char> data(static_cast<std::size_t>(c.n));
            for (std::size_t i = 0; i < data.size(); ++i) {
                data[i] = static_cast<char>((c.seed + i) % 251);
            }
            writeAll(c.op == 'w' ? 1 : 2, data.data(), data.size());
            break;
        }
        case 'r': { // whatever is there
            std::vector<char> data;
            char buf[4096];
            bool eof = false;
            pollfd p{0, POLLIN, 0};
            while (::poll(&p, 1, 0) > 0) {
                const auto r = ::read(0, buf, sizeof buf);
                if (r <= 0) {
                    eof = true;
                    break;
                }
                data.insert(data.end(), buf, buf + r);
                if (data.size() >= static_cast<std::size_t>(c.n)) {
                    break;
                }
            }
            std::int32_t head[2] = {static_cast<std::int32_t>(data.size()), eof};
            writeAll(ctl, head, sizeof head);
            writeAll(ctl, data.data(), data.size());
            break;
        }
        case 'c': ::close(1); break;
        case 'i': ::close(0); break;
        case 'x': _exit(c.n);
        case 'k': std::signal(c.n, SIG_DFL); ::raise(c.n); break;
        }
        writeAll(ctl, "a", 1);
    }
    return 97;
}
