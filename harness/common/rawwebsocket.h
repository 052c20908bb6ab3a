// WebSocket peers which the test operates through bare descriptors: handshake and frames are put together by hand.
#pragma once

#include <QByteArray>
#include <QCryptographicHash>
#include <QList>

#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <unistd.h>

namespace rawws {

enum Opcode { Continuation = 0, Text = 1, Binary = 2, CloseFrame = 8, Ping = 9, Pong = 10 };

inline bool awaitReady(int fd, short events, int ms = 3000) {
    pollfd p{fd, events, 0};
    return ::poll(&p, 1, ms) > 0;
}

inline QByteArray acceptKey(const QByteArray &key) {
    return QCryptographicHash::hash(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11", QCryptographicHash::Sha1).toBase64();
}

inline sockaddr_in loopback(quint16 port) {
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    return a;
}

//! A listening (or merely bound) socket on a port of the loopback
inline int server(quint16 &port, bool listening) {
    const int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
    auto a = loopback(0);
    if (fd < 0 || ::bind(fd, reinterpret_cast<sockaddr *>(&a), sizeof a) != 0 || (listening && ::listen(fd, 10) != 0)) {
        return -1;
    }
    socklen_t len = sizeof a;
    ::getsockname(fd, reinterpret_cast<sockaddr *>(&a), &len);
    port = ntohs(a.sin_port);
    return fd;
}

inline quint16 peerPort(int fd) {
    sockaddr_in a{};
    socklen_t len = sizeof a;
    return ::getpeername(fd, reinterpret_cast<sockaddr *>(&a), &len) == 0 && a.sin_family == AF_INET ? ntohs(a.sin_port) : 0;
}
inline quint16 localPort(int fd) {
    sockaddr_in a{};
    socklen_t len = sizeof a;
    return ::getsockname(fd, reinterpret_cast<sockaddr *>(&a), &len) == 0 && a.sin_family == AF_INET ? ntohs(a.sin_port) : 0;
}
//! The other end of a connection, which is open in this process, too
inline int otherEnd(int fd) {
    const auto local = localPort(fd), peer = peerPort(fd);
    if (!local || !peer) {
        return -1;
    }
    for (int k = 3; k < 512; ++k) {
        if (k != fd && localPort(k) == peer && peerPort(k) == local) {
            return k;
        }
    }
    return -1;
}

struct Frame {
    bool fin = true;
    int opcode = Text;
    QByteArray payload;
};

struct Peer {
    int fd = -1;
    QByteArray in;

    Peer() = default;
    Peer(const Peer &) = delete;
    Peer &operator=(const Peer &) = delete;
    ~Peer() { reset(); }

    //! Drops the connection the hard way
    void reset() {
        if (fd >= 0) {
            const linger l{1, 0};
            ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
            ::close(fd);
            fd = -1;
        }
        in.clear();
    }
    void adopt(int descriptor) {
        reset();
        fd = descriptor;
        const int one = 1;
        ::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    }
    bool send(const QByteArray &data) {
        return fd >= 0 && ::send(fd, data.constData(), static_cast<std::size_t>(data.size()), MSG_NOSIGNAL | MSG_DONTWAIT) == data.size();
    }
    //! Receives what has arrived; returns false at the end
    bool receive() {
        char buf[8192];
        while (fd >= 0) {
            const auto n = ::recv(fd, buf, sizeof buf, MSG_DONTWAIT);
            if (n < 0 && errno == EAGAIN) {
                return true;
            }
            if (n <= 0) {
                return false;
            }
            in.append(buf, n);
        }
        return false;
    }
    //! The header of the request (or response) received, if it is complete
    QByteArray header() {
        const auto end = in.indexOf("\r\n\r\n");
        if (end < 0) {
            return {};
        }
        const auto h = in.left(end + 4);
        in.remove(0, end + 4);
        return h;
    }
    static QByteArray field(const QByteArray &header, const QByteArray &name) {
        for (const auto &line : header.split('\n')) {
            const auto colon = line.indexOf(':');
            if (colon > 0 && line.left(colon).trimmed().toLower() == name.toLower()) {
                return line.mid(colon + 1).trimmed();
            }
        }
        return {};
    }
    static QByteArray response(const QByteArray &request) {
        return "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " +
            acceptKey(field(request, "Sec-WebSocket-Key")) + "\r\n\r\n";
    }
    static QByteArray request(quint16 port, int number) {
        return "GET /" + QByteArray::number(number) + " HTTP/1.1\r\nHost: 127.0.0.1:" + QByteArray::number(port) +
            "\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
    }

    static QByteArray encode(const Frame &f, bool mask) {
        QByteArray out;
        out.append(static_cast<char>((f.fin ? 0x80 : 0) | f.opcode));
        const auto n = f.payload.size();
        const int m = mask ? 0x80 : 0;
        if (n < 126) {
            out.append(static_cast<char>(m | n));
        } else if (n < 65536) {
            out.append(static_cast<char>(m | 126));
            out.append(static_cast<char>(n >> 8));
            out.append(static_cast<char>(n & 255));
        } else {
            out.append(static_cast<char>(m | 127));
            for (int k = 56; k >= 0; k -= 8) {
                out.append(static_cast<char>((static_cast<quint64>(n) >> k) & 255));
            }
        }
        if (!mask) {
            return out + f.payload;
        }
        const char key[] = {'\x12', '\x34', '\x56', '\x78'};
        out.append(key, 4);
        for (qsizetype k = 0; k < n; ++k) {
            out.append(static_cast<char>(f.payload[k] ^ key[k % 4]));
        }
        return out;
    }
    //! Takes a complete frame from what has been received
    bool decode(Frame &f) {
        const auto byte = [this](qsizetype k) { return static_cast<quint64>(static_cast<unsigned char>(in[k])); };
        if (in.size() < 2) {
            return false;
        }
        f.fin = byte(0) & 0x80;
        f.opcode = static_cast<int>(byte(0) & 15);
        const bool masked = byte(1) & 0x80;
        quint64 n = byte(1) & 127;
        qsizetype pos = 2;
        const int extra = n == 126 ? 2 : n == 127 ? 8 : 0;
        if (in.size() < pos + extra) {
            return false;
        }
        if (extra) {
            n = 0;
            for (int k = 0; k < extra; ++k) {
                n = n << 8 | byte(pos++);
            }
        }
        const auto key = pos;
        pos += masked ? 4 : 0;
        if (static_cast<quint64>(in.size() - pos) < n || in.size() < pos) {
            return false;
        }
        f.payload = in.mid(pos, static_cast<qsizetype>(n));
        for (qsizetype k = 0; masked && k < f.payload.size(); ++k) {
            f.payload[k] = static_cast<char>(f.payload[k] ^ in[key + k % 4]);
        }
        in.remove(0, pos + static_cast<qsizetype>(n));
        return true;
    }
};

} // namespace rawws
