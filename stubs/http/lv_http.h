// The contract of the parts of Boost.Asio, Boost.Beast, cereal's JSON archive and
// the standard library (regular expressions, files, string streams) that the debug
// server uses.  Used by the verifier and by native builds.  Assumed:
//  - asynchronous operations call their handler once, later, in the thread that
//    runs the io_context; what is written arrives, what arrives is what was sent;
//  - regular expressions of literals, '.', [0-9], '?', '*', '+' mean what they say;
//  - a JSON archive is a list of named values and complete when it is destroyed.
#pragma once
#include <lv.h>
#include <cereal/cereal.hpp>
#include <cstring>
#include <fstream>
#include <functional>
#include <iterator>
#include <regex>
#include <sstream>
#include <string>
#include <string_view>

namespace boost {
namespace system {
struct error_code
{
    int v = 0;
    explicit operator bool() const { return v != 0; }
    bool failed() const { return v != 0; }
    int value() const { return v; }
    std::string message() const { return v ? "error" : "success"; }
    void clear() { v = 0; }
    friend bool operator==(error_code a, error_code b) { return a.v == b.v; }
    friend bool operator!=(error_code a, error_code b) { return a.v != b.v; }
};
} // namespace system
namespace asio {
struct net;
class io_context
{
public:
    unsigned runs = 0;
    bool stopped_ = false;
    explicit io_context(int = 1) {}
    std::size_t run();
    void stop() { stopped_ = true; }
    bool stopped() const { return stopped_; }
    void restart() { stopped_ = false; }
    ~io_context();
};
struct socket_base
{
    struct reuse_address
    {
        explicit reuse_address(bool) {}
    };
    enum shutdown_type
    {
        shutdown_receive,
        shutdown_send,
        shutdown_both
    };
    static constexpr int max_listen_connections = 128;
};
namespace ip {
struct tcp
{
    struct protocol
    {
        int v;
    };
    static protocol v4() { return {4}; }
    static protocol v6() { return {6}; }
    struct endpoint
    {
        tcp::protocol p;
        unsigned short port_;
        endpoint(tcp::protocol p, unsigned short port)
            : p{p}
            , port_{port}
        {}
        tcp::protocol protocol() const { return p; }
        unsigned short port() const { return port_; }
    };
    // a connection: one pending operation at a time
    struct socket : socket_base
    {
        net* n;
        explicit socket(net* n = nullptr)
            : n{n}
        {}
        socket(socket&& o) noexcept
            : n{o.n}
        {
            o.n = nullptr;
        }
        ~socket();
        void shutdown(shutdown_type, system::error_code&);
        void shutdown(shutdown_type t)
        {
            system::error_code e;
            shutdown(t, e);
        }
        void close(system::error_code&);
        void close()
        {
            system::error_code e;
            close(e);
        }
        bool is_open() const { return n; }
    };
    struct acceptor : socket_base
    {
        io_context& c;
        bool opened = false, bound = false, listening = false;
        unsigned short port = 0;
        explicit acceptor(io_context& c)
            : c{c}
        {}
        acceptor(io_context& c, endpoint e, bool = true)
            : c{c}
        {
            open(e.protocol());
            bind(e);
            listen();
        }
        void open(protocol) { opened = true; }
        bool is_open() const { return opened; }
        template <typename O>
        void set_option(O)
        {}
        void bind(endpoint e)
        {
            lv_assert(opened, "open before binding");
            bound = true;
            port  = e.port();
        }
        void listen(int = max_listen_connections)
        {
            lv_assert(bound, "bound before listening");
            listening = true;
        }
        template <typename H>
        void async_accept(H h);
    };
};
} // namespace ip
} // namespace asio
namespace beast {
using error_code  = system::error_code;
using string_view = std::string_view;
inline char lv_lower(char c) { return c >= 'A' && c <= 'Z' ? char(c - 'A' + 'a') : c; }
inline bool iequals(string_view a, string_view b)
{
    if (a.size() != b.size())
        return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (lv_lower(a[i]) != lv_lower(b[i]))
            return false;
    return true;
}
struct flat_buffer
{
    std::size_t size() const { return 0; }
    void clear() {}
    void consume(std::size_t) {}
};
namespace http {
enum class verb
{
    unknown,
    delete_,
    get,
    head,
    post,
    put
};
enum class field
{
    content_type,
    server,
    host,
    connection,
    cache_control,
    content_length,
    user_agent
};
enum class status : unsigned
{
    ok                    = 200,
    bad_request           = 400,
    forbidden             = 403,
    not_found             = 404,
    internal_server_error = 500
};
struct string_body
{};
template <typename B>
struct request
{
    verb method_ = verb::unknown;
    std::string target_;
    verb method() const { return method_; }
    string_view target() const { return target_; }
    unsigned version() const { return 11; }
    bool keep_alive() const { return true; }
};
template <typename B>
struct response
{
    unsigned status_ = 0;
    std::string type_, body_;
    bool ready_ = false, eof_ = false;
    void result(unsigned s) { status_ = s; }
    void result(status s) { status_ = static_cast<unsigned>(s); }
    unsigned result_int() const { return status_; }
    status result() const { return static_cast<status>(status_); }
    void version(unsigned) {}
    void set(field f, string_view v)
    {
        if (f == field::content_type)
            type_ = std::string{v};
    }
    std::string& body() { return body_; }
    const std::string& body() const { return body_; }
    void prepare_payload() { ready_ = true; }
    bool need_eof() const { return eof_; }
};
} // namespace http
} // namespace beast
namespace asio {
using request  = beast::http::request<beast::http::string_body>;
using response = beast::http::response<beast::http::string_body>;
// the other side
struct net
{
    io_context* ctx = nullptr;
    unsigned short port = 0;
    // what the server waits for
    std::function<void(system::error_code, ip::tcp::socket)> accept;
    std::function<void(system::error_code, std::size_t)> op;
    request* req  = nullptr;
    response* res = nullptr;
    unsigned open = 0, shut = 0, conns = 0;
    bool reading() const { return !!op && req; }
    bool writing() const { return !!op && res; }
    void complete(system::error_code ec)
    {
        auto h = std::move(op);
        op     = nullptr;
        req    = nullptr;
        res    = nullptr;
        h(ec, 1);
    }
    void connect()
    {
        auto h = std::move(accept);
        accept = nullptr;
        ++open;
        ++conns;
        h({}, ip::tcp::socket{this});
    }
    void fail_accept()
    {
        auto h = std::move(accept);
        accept = nullptr;
        h({1}, ip::tcp::socket{nullptr});
    }
    // nothing is waited for any longer
    void drop()
    {
        auto a = std::move(accept);
        auto h = std::move(op);
        accept = nullptr;
        op     = nullptr;
    }
};
inline net* g_net;
inline std::size_t io_context::run()
{
    ++runs;
    return 0;
}
inline io_context::~io_context() { g_net->drop(); }
inline ip::tcp::socket::~socket()
{
    if (n)
        n->open--;
}
inline void ip::tcp::socket::shutdown(shutdown_type, system::error_code&) { n->shut++; }
inline void ip::tcp::socket::close(system::error_code&) { n->shut++; }
template <typename H>
void ip::tcp::acceptor::async_accept(H h)
{
    lv_assert(listening, "listening before accepting");
    lv_assert(!g_net->accept, "one accept at a time");
    g_net->ctx    = &c;
    g_net->port   = port;
    g_net->accept = [h](system::error_code ec, ip::tcp::socket s) mutable { h(ec, std::move(s)); };
}
} // namespace asio
namespace beast {
namespace http {
template <typename H>
void async_read(asio::ip::tcp::socket& s, flat_buffer&, asio::request& r, H h)
{
    lv_assert(s.n && !s.n->op, "one operation at a time");
    lv_assert(r.target_.empty(), "reads into an empty request");
    s.n->req = &r;
    s.n->op  = [h](system::error_code ec, std::size_t n) mutable { h(ec, n); };
}
template <typename H>
void async_write(asio::ip::tcp::socket& s, asio::response& r, H h)
{
    lv_assert(s.n && !s.n->op, "one operation at a time.");
    lv_assert(r.ready_, "the payload is prepared");
    s.n->res = &r;
    s.n->op  = [h](system::error_code ec, std::size_t n) mutable { h(ec, n); };
}
} // namespace http
} // namespace beast
} // namespace boost

namespace lv {
struct json_value
{
    const char* name;
    uint64_t v;
};
struct json_doc
{
    json_value e[8];
    unsigned n     = 0;
    bool complete  = false;
    bool has(const char* k, uint64_t v) const
    {
        unsigned c = 0;
        bool ok    = false;
        for (unsigned i = 0; i < n; ++i)
            if (!std::strcmp(e[i].name, k)) {
                ++c;
                ok = e[i].v == v;
            }
        return c == 1 && ok;
    }
    bool has(const char* k) const
    {
        for (unsigned i = 0; i < n; ++i)
            if (!std::strcmp(e[i].name, k))
                return true;
        return false;
    }
};
inline json_doc* g_json;
template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
uint64_t json_of(T v)
{
    return static_cast<uint64_t>(v);
}
// (a text is represented by its length and its first character)
inline uint64_t json_of(const std::string& s) { return s.size() * 256 + (s.empty() ? 0 : (unsigned char) s[0]); }

// files
struct file_system
{
    const char* path[4];
    const char* content[4];
    unsigned n = 0;
    unsigned opened = 0;
    std::string asked;
};
inline file_system* g_files;
} // namespace lv
namespace std {
struct lv_ostringstream
{
    std::string s;
    std::string str() const { return s; }
    lv_ostringstream& operator<<(const char* c)
    {
        s += c;
        return *this;
    }
    lv_ostringstream& operator<<(char c)
    {
        s += c;
        return *this;
    }
    lv_ostringstream& operator<<(const std::string& c)
    {
        s += c;
        return *this;
    }
    lv_ostringstream& operator<<(std::string_view c)
    {
        s += c;
        return *this;
    }
};
struct lv_ifstream
{
    const char *b = nullptr, *e = nullptr;
    explicit lv_ifstream(const std::string& p)
    {
        lv::g_files->opened++;
        // ("//" is the same as "/")
        auto& a = lv::g_files->asked;
        a.clear();
        for (char c : p)
            if (c != '/' || a.empty() || a.back() != '/')
                a += c;
        for (unsigned i = 0; i < lv::g_files->n; ++i)
            if (a == lv::g_files->path[i]) {
                b = lv::g_files->content[i];
                e = b + std::strlen(b);
            }
    }
    template <typename Mode>
    lv_ifstream(const std::string& p, Mode)
        : lv_ifstream(p)
    {}
    bool is_open() const { return b; }
    bool good() const { return b; }
    bool fail() const { return !b; }
    bool operator!() const { return !b; }
    explicit operator bool() const { return b; }
};
template <typename C>
struct lv_istreambuf_iterator
{
    using iterator_category = std::input_iterator_tag;
    using value_type        = C;
    using difference_type   = std::ptrdiff_t;
    using pointer           = const C*;
    using reference         = C;
    lv_ifstream* f          = nullptr;
    lv_istreambuf_iterator() = default;
    lv_istreambuf_iterator(lv_ifstream& f)
        : f{&f}
    {}
    bool end() const { return !f || f->b == f->e; }
    C operator*() const { return *f->b; }
    lv_istreambuf_iterator& operator++()
    {
        ++f->b;
        return *this;
    }
    lv_istreambuf_iterator operator++(int)
    {
        auto x = *this;
        ++f->b;
        return x;
    }
    bool operator==(const lv_istreambuf_iterator& o) const { return end() == o.end(); }
    bool operator!=(const lv_istreambuf_iterator& o) const { return end() != o.end(); }
};
struct lv_regex
{
    std::string p;
    explicit lv_regex(const std::string& s)
        : p{s}
    {}
    explicit lv_regex(const char* s)
        : p{s}
    {}
};
inline bool lv_match_one(const char* p, const char* pe, char c)
{
    if (*p == '.')
        return c != '\n';
    if (*p == '[') {
        lv_assert(pe - p == 5 && p[2] == '-' && p[4] == ']', "ghost-limit-regex-syntax");
        return c >= p[1] && c <= p[3];
    }
    lv_assert(*p != '(' && *p != '|' && *p != '\\' && *p != '^' && *p != '$' && *p != '{', "ghost-limit-regex-syntax");
    return c == *p;
}
inline bool lv_match(const char* p, const char* pe, const char* s, const char* e)
{
    if (p == pe)
        return s == e;
    const char* q = p + 1;
    if (*p == '[') {
        while (q != pe && *q != ']')
            ++q;
        if (q != pe)
            ++q;
    }
    char suffix = q != pe && (*q == '?' || *q == '*' || *q == '+') ? *q : 0;
    const char* next = suffix ? q + 1 : q;
    if (!suffix)
        return s != e && lv_match_one(p, q, *s) && lv_match(next, pe, s + 1, e);
    if (suffix == '+') {
        if (s == e || !lv_match_one(p, q, *s))
            return false;
        ++s;
        suffix = '*';
    }
    while (true) {
        if (lv_match(next, pe, s, e))
            return true;
        if (s == e || !lv_match_one(p, q, *s))
            return false;
        ++s;
        if (suffix == '?')
            return lv_match(next, pe, s, e);
    }
}
template <typename It>
bool lv_regex_match(It b, It e, const lv_regex& r)
{
    const char* s = b == e ? nullptr : &*b;
    return lv_match(r.p.data(), r.p.data() + r.p.size(), s, s + (e - b));
}
inline bool lv_regex_match(const std::string& t, const lv_regex& r) { return lv_regex_match(t.begin(), t.end(), r); }
} // namespace std
namespace cereal {
class JSONOutputArchive
{
    std::lv_ostringstream& s_;

public:
    explicit JSONOutputArchive(std::lv_ostringstream& s)
        : s_{s}
    {
        *lv::g_json = {};
        s_ << "{";
    }
    ~JSONOutputArchive()
    {
        s_ << "}";
        lv::g_json->complete = true;
    }
    template <typename T>
    void one(const NameValuePair<T>& p)
    {
        using lv::json_of;
        auto& d = *lv::g_json;
        lv_assert(d.n < 8, "ghost-limit-json-capacity");
        d.e[d.n++] = {p.name, json_of(p.value)};
    }
    template <typename... T>
    JSONOutputArchive& operator()(T&&... t)
    {
        (one(t), ...);
        return *this;
    }
};
} // namespace cereal
#define ostringstream lv_ostringstream
#define ifstream lv_ifstream
#define istreambuf_iterator lv_istreambuf_iterator
#define regex lv_regex
#define regex_match lv_regex_match
