// The debug server.  Sockets, HTTP, JSON text, regular expressions and files are
// replaced by their contracts, see stubs/http/lv_http.h.
// LV_FLAGS: -include lv_inline_std.h -I{VERIF}/stubs/http
#include "gloop.h"
#include "lv.h"
#include <lager/store.hpp>
#include <lv_http.h>
#include <lager/debug/http_server.hpp>
using namespace lv;
using boost::asio::net;
using boost::beast::http::verb;

namespace lv {
uint64_t json_of(const V& v) { return v.id; }
uint64_t json_of(const W& v) { return v.id; }
} // namespace lv

namespace {
Log g_log;
enum
{
    BASE = 1,
    GOTO,
    UNDO,
    REDO,
    PAUSE,
    RESUME
};
// a debugger that is nothing but its interface
struct dbg
{
    using base_action = W;
    using base_model  = V;
    using cursor_t    = std::size_t;
    struct goto_action
    {
        cursor_t cursor;
    };
    struct undo_action
    {};
    struct redo_action
    {};
    struct pause_action
    {};
    struct resume_action
    {};
    using action = std::variant<base_action, goto_action, undo_action, redo_action, pause_action, resume_action>;
    struct model
    {
        cursor_t cursor = 0;
        bool paused     = false;
        cursor_t steps  = 0;
        V shown         = V{77};
        bool operator==(const model& o) const
        {
            return cursor == o.cursor && paused == o.paused && steps == o.steps && shown == o.shown;
        }
        bool operator!=(const model& o) const { return !(*this == o); }
        cursor_t summary() const { return steps; }
        using lookup_result = std::pair<std::optional<W>, const V&>;
        lookup_result lookup(cursor_t c) const
        {
            if (c > steps)
                LAGER_THROW(std::runtime_error{"bad cursor"});
            if (c == 0)
                return {{}, shown};
            return {W{uf("action at", shown.id, c)}, shown};
        }
    };
};
// the store behind it: remembers what it is asked and goes to the next model
struct reducer
{
    dbg::model next;
    dbg::model operator()(dbg::model m, dbg::action a)
    {
        lager::match(a)([](W w) { g_log.push(BASE, w.id); }, [](dbg::goto_action a) { g_log.push(GOTO, a.cursor); },
                        [](dbg::undo_action) { g_log.push(UNDO); }, [](dbg::redo_action) { g_log.push(REDO); },
                        [](dbg::pause_action) { g_log.push(PAUSE); }, [](dbg::resume_action) { g_log.push(RESUME); });
        return next;
    }
};
dbg::model any_model()
{
    dbg::model m;
    m.cursor = lv_any("cursor");
    m.paused = any_bool("paused");
    m.steps  = lv_any("steps");
    m.shown  = any("shown");
    return m;
}
#ifdef LV_VERIFY
struct thread_state
{
    std::thread::_State* s;
    std::function<void()>* last; // what the thread does last
};
thread_state g_thread;
#endif
std::function<void()> g_last;

struct world
{
    net n;
    json_doc json;
    file_system files;
    gloop loop;
    world()
    {
        boost::asio::g_net = &n;
        g_json             = &json;
        g_files            = &files;
        g_log.clear();
        g_last = nullptr;
    }
};
struct answer
{
    unsigned status = 0;
    std::string type, body;
};
// one request of a client that is connected
char g_main; // pseudo lock: held while the thread of the store executes
// what the store shows belongs to its thread
template <typename Node>
struct owned
{
    Node* n;
    explicit owned(Node* n_)
        : n(n_)
    {
        lv_guard((void*) &n->current(), sizeof(n->current()), &g_main);
        lv_guard((void*) &n->last(), sizeof(n->last()), &g_main);
        lv_hold(&g_main, true);
    }
    ~owned() { lv_unguard(n); }
};
template <typename Store>
auto own(Store& st)
{
    using node_t = std::decay_t<decltype(*lager::detail::access::node(st))>;
    return owned<node_t>{&*lager::detail::access::node(st)};
}
answer ask(world& w, verb v, const std::string& target)
{
    answer a;
    lv_hold(&g_main, false);
    in_thread(1, [&] {
        lv_assert(w.n.reading(), "waits for a request");
        w.n.req->method_ = v;
        w.n.req->target_ = target;
        w.n.complete({});
        lv_assert(w.n.writing(), "every request is answered");
        a.status = w.n.res->status_;
        a.type   = w.n.res->type_;
        a.body   = w.n.res->body_;
        w.n.complete({});
    });
    lv_hold(&g_main, true);
    lv_assert(w.n.reading(), "and waits for the next one");
    return a;
}
void connect(world& w)
{
    lv_assert(!!w.n.accept, "accepts clients");
    in_thread(1, [&] { w.n.connect(); });
    lv_assert(!!w.n.accept, "and goes on accepting them");
}
auto server()
{
    static const char* argv[] = {"prog", "-x"};
    return lager::http_debug_server{2, argv, 8080, "res"};
}
auto store_of(world& w, dbg::model init, dbg::model next)
{
    return lager::make_store<dbg::action>(init, with_gloop{&w.loop}, lager::with_reducer(reducer{next}));
}
std::string number(const char* prefix, unsigned digits, uint64_t& value)
{
    std::string s = prefix;
    value         = 0;
    for (unsigned i = 0; i < digits; ++i) {
        auto d = lv_any("digit");
        lv_assume(d < 10);
        s += char('0' + d);
        value = value * 10 + d;
    }
    return s;
}
} // namespace

#ifdef LV_VERIFY
// one thread, started once, joined once; the rest of its work is done when it is joined
void std::thread::_M_start_thread(_State_ptr s, void (*)())
{
    lv_assert(!g_thread.s, "one thread");
    g_thread.s = s.release();
    _M_id      = id(1);
}
void std::thread::join()
{
    lv_assert(_M_id != id(), "joined once");
    in_thread(1, [&] {
        g_thread.s->_M_run();
        if (g_last)
            g_last();
    });
    delete g_thread.s;
    g_thread.s = nullptr;
    _M_id      = id();
}
std::thread::_State::~_State() = default;
extern "C" {
unsigned long strtoul(const char* s, char** e, int base) noexcept
{
    lv_assert(base == 10, "ghost-limit-strtoul-base");
    unsigned long v = 0;
    while (*s >= '0' && *s <= '9')
        v = v * 10 + (*s++ - '0');
    *e = const_cast<char*>(s);
    return v;
}
int* __errno_location() noexcept
{
    static int e;
    return &e;
}
}
#endif

// the state of the debugger is reported as it is, from the beginning and after
// every change
LV_CONTRACT(server_reports_state)
{
    world w;
    auto m = any_model(), n = any_model();
    auto st = store_of(w, m, n);
    auto o  = own(st);
    auto s  = server();
    auto h  = s.make(dbg{});
    h->init(st, st);
    lv_assert(w.n.port == 8080, "at the port it was given");
    connect(w);
    bool later = any_bool("after an action");
    if (later) {
        st.dispatch(W{1});
        w.loop.drain();
    }
    auto& is = later ? n : m;
    auto a   = ask(w, verb::get, any_bool("slash") ? "/api/" : "/api");
    lv_assert(a.status == 200 && a.type == "application/json", "answered");
    lv_assert(a.body == "{}" && w.json.complete, "the text is complete");
    lv_assert(w.json.has("program", json_of(std::string{"prog -x"})), "the program with its arguments");
    lv_assert(w.json.has("summary", is.steps), "the number of steps");
    lv_assert(w.json.has("cursor", is.cursor), "the step that is shown");
    lv_assert(w.json.has("paused", is.paused), "whether it is paused");
    lv_assert(!w.loop.pending(), "reporting does nothing else");
}
LV_CONTRACT(server_reports_steps)
{
    world w;
    auto m = any_model(), n = any_model();
    auto st = store_of(w, m, n);
    auto o  = own(st);
    auto s  = server();
    auto h  = s.make(dbg{});
    h->init(st, st);
    connect(w);
    bool later = any_bool("after an action");
    if (later) {
        st.dispatch(W{1});
        w.loop.drain();
    }
    auto& is = later ? n : m;
    uint64_t c;
    auto t = number("/api/step/", 1 + pick("digits", 3), c);
    auto a = ask(w, verb::get, t);
    if (c > is.steps) {
        lv_assert(a.status == 500 && a.body == "bad cursor", "a step that is not there is an error");
    } else {
        lv_assert(a.status == 200 && a.type == "application/json", "answered");
        lv_assert(a.body == "{}" && w.json.complete, "the text is complete");
        lv_assert(w.json.has("model", is.shown.id), "the model at that step");
        lv_assert(c == 0 ? !w.json.has("action") : w.json.has("action", uf("action at", is.shown.id, c)),
                  "the action that led to it, if any");
    }
    lv_assert(!w.loop.pending(), "reporting does nothing else");
}
// what is asked is dispatched, once, to the loop of the store
LV_CONTRACT(server_dispatches)
{
    world w;
    auto m = any_model(), n = any_model();
    auto st = store_of(w, m, n);
    auto o  = own(st);
    auto s  = server();
    auto h  = s.make(dbg{});
    h->init(st, st);
    connect(w);
    uint64_t c    = 0;
    unsigned what = GOTO + pick("what", 5);
    std::string t;
    if (what == GOTO)
        t = number("/api/goto/", 1 + pick("digits", 3), c);
    else
        t = what == UNDO ? "/api/undo" : what == REDO ? "/api/redo" : what == PAUSE ? "/api/pause" : "/api/resume";
    auto a = ask(w, verb::post, t);
    lv_assert(a.status == 200, "answered");
    lv_assert(g_log.n == 0, "not by the thread of the server");
    w.loop.drain();
    lv_assert(g_log.n == 1 && g_log.is(0, what, c), "exactly what was asked, once");
    // the same path with the other method is not the same request
    auto b = ask(w, verb::get, t);
    lv_assert(b.status == 404, "and only when it was posted");
    w.loop.drain();
    lv_assert(g_log.n == 1, "asking for it does nothing");
}
LV_CONTRACT(server_unknown_requests)
{
    world w;
    auto m = any_model();
    auto st = store_of(w, m, m);
    auto s  = server();
    auto h  = s.make(dbg{});
    h->init(st, st);
    connect(w);
    const char* t[] = {"/api/nothing", "/api/goto/", "/api/goto/x", "/api/undo/1", "api/undo", "/", "/api/gotox/1"};
    auto a          = ask(w, verb::post, t[pick("target", 7)]);
    lv_assert(a.status == 404, "not found");
    w.loop.drain();
    lv_assert(g_log.n == 0, "and nothing is done");
}
// the pages of the user interface
LV_CONTRACT(server_files)
{
    world w;
    w.files.path[0]    = "res/gui/index.html";
    w.files.content[0] = "<index>";
    w.files.path[1]    = "res/gui/css/a.css";
    w.files.content[1] = "style";
    w.files.path[2]    = "res/gui/x.JS";
    w.files.content[2] = "";
    w.files.path[3]    = "res/gui/a.b/c";
    w.files.content[3] = "c";
    w.files.n          = 4;
    auto m  = any_model();
    auto st = store_of(w, m, m);
    auto s  = server();
    auto h  = s.make(dbg{});
    h->init(st, st);
    connect(w);
    auto is = [](const answer& a, unsigned st, const char* ty, const char* body) {
        return a.status == st && a.type == ty && a.body == body;
    };
    lv_assert(is(ask(w, verb::get, "/"), 200, "text/html", "<index>"), "the index");
    lv_assert(is(ask(w, verb::get, "/index.html"), 200, "text/html", "<index>"), "a page by its name");
    lv_assert(is(ask(w, verb::get, "/css/a.css"), 200, "text/css", "style"), "in a folder");
    lv_assert(is(ask(w, verb::get, "/x.JS"), 200, "application/javascript", ""), "also when it is empty");
    lv_assert(ask(w, verb::get, "/a.b/c").status == 200 && ask(w, verb::get, "/a.b/c").body == "c", "of no known type");
    lv_assert(ask(w, verb::get, "/a.css").status == 404, "not found");
    lv_assert(ask(w, verb::get, "/gui/index.html").status == 404, "nor that");
    w.loop.drain();
    lv_assert(g_log.n == 0, "reading does nothing else");
}
// what they are is told by their names
LV_CONTRACT(server_file_types)
{
    struct
    {
        const char *name, *type;
    } known[] = {{"a.html", "text/html"},        {"a.b.htm", "text/html"},     {"x/a.css", "text/css"},
                 {"a.txt", "text/plain"},        {"a.js", "application/javascript"}, {"a.json", "application/json"},
                 {"a.xml", "application/xml"},   {"a.png", "image/png"},       {"a.PNG", "image/png"},
                 {"a.jpeg", "image/jpeg"},       {"a.jpg", "image/jpeg"},      {"a.gif", "image/gif"},
                 {"a.bmp", "image/bmp"},         {"a.tiff", "image/tiff"},     {"a.tif", "image/tiff"},
                 {"a.svg", "image/svg+xml"},     {"a.Svgz", "image/svg+xml"},  {"a.ico", "image/vnd.microsoft.icon"},
                 {"a.php", "text/html"},         {"a.jpe", "image/jpeg"},      {"a.swf", "application/x-shockwave-flash"},
                 {"a.flv", "video/x-flv"},       {"css", nullptr},               {"a.css/js", nullptr},        {"a.", nullptr}};
    world w;
    auto k             = known[pick("file", sizeof(known) / sizeof(*known))];
    auto path          = std::string("resources/gui/") + k.name;
    w.files.path[0]    = path.c_str();
    w.files.content[0] = "content";
    w.files.n          = 1;
    static const char* argv[] = {"prog"};
    auto m  = any_model();
    auto st = store_of(w, m, m);
    auto s  = lager::http_debug_server{1, argv, 8080, "resources"};
    auto h  = s.make(dbg{});
    h->init(st, st);
    connect(w);
    auto a = ask(w, verb::get, std::string("/") + k.name);
    lv_assert(a.status == 200 && a.body == "content", "its content");
    if (k.type)
        lv_assert(a.type == k.type, "its type");
    else
        lv_assert(a.type != "text/css" && a.type != "application/javascript", "its type is not known");
}
// whatever is asked for, no file outside of its folder is opened
LV_BOUNDED(server_files_stay_inside)
{
    world w;
    auto m  = any_model();
    auto st = store_of(w, m, m);
    auto s  = server();
    auto h  = s.make(dbg{});
    h->init(st, st);
    connect(w);
    std::string t = "/";
    unsigned n    = pick("n", 7);
    for (unsigned i = 0; i < n; ++i)
        t += "/.a"[pick("c", 3)];
    auto a = ask(w, verb::get, t);
    lv_assert(a.status == 404, "nothing there");
    if (w.files.opened) {
        auto& p = w.files.asked;
        lv_assert(p.compare(0, 8, "res/gui/") == 0, "below its folder");
        // never above it on the way
        int depth = 0;
        for (std::size_t i = 8; i < p.size();) {
            auto e    = p.find('/', i);
            auto part = p.substr(i, e == std::string::npos ? e : e - i);
            depth += part == ".." ? -1 : part == "." || part.empty() ? 0 : 1;
            lv_assert(depth >= 0, "and not above it");
            i = e == std::string::npos ? p.size() : e + 1;
        }
    }
}
// connections
LV_CONTRACT(server_connections)
{
    world w;
    auto m = any_model();
    auto st = store_of(w, m, m);
    auto s  = server();
    auto h  = s.make(dbg{});
    h->init(st, st);
    connect(w);
    unsigned shut = 0;
    unsigned what = pick("what happens", 3);
    in_thread(1, [&] {
        switch (what) {
        case 0: // the client goes away
            w.n.complete({1});
            break;
        case 1: // while it is answered
            w.n.req->method_ = verb::post;
            w.n.req->target_ = "/api/undo";
            w.n.complete({});
            w.n.complete({1});
            break;
        case 2: // a connection that is not kept
            w.n.req->method_ = verb::post;
            w.n.req->target_ = "/api/undo";
            w.n.complete({});
            w.n.res->eof_ = true;
            {
                // (what the answer says is decided when it is written)
                w.n.complete({1});
            }
            break;
        }
        shut = w.n.shut;
    });
    lv_assert(shut == 1 && !w.n.op, "the connection is closed");
    lv_assert(w.n.open == 0, "and released");
    // the next client is served
    connect(w);
    w.loop.drain();
    g_log.clear();
    auto a = ask(w, verb::post, "/api/redo");
    lv_assert(a.status == 200, "others are not affected");
}
// a client that went away before it was accepted is not served, and others still are
LV_CONTRACT(failed_accept)
{
    world w;
    auto m  = any_model();
    auto st = store_of(w, m, m);
    {
        auto s = server();
        auto h = s.make(dbg{});
        h->init(st, st);
        bool first = any_bool("another client before");
        if (first)
            connect(w);
        in_thread(1, [&] { w.n.fail_accept(); });
        lv_assert(w.n.reading() == first, "nothing is read from it");
        lv_assert(w.n.open == first, "no connection");
        if (first) {
            w.loop.drain();
            g_log.clear();
            auto a = ask(w, verb::post, "/api/undo");
            lv_assert(a.status == 200, "others are not affected");
            w.loop.drain();
        }
    }
    lv_assert(w.n.open == 0 && !w.n.op && !w.n.accept, "nothing is left");
}
// a server that is gone has stopped its thread before anything it uses was released
LV_CONTRACT(server_lifetime)
{
    world w;
    auto m  = any_model();
    auto st = store_of(w, m, m);
    {
        auto s = server();
        auto h = s.make(dbg{});
        h->init(st, st);
        connect(w);
        bool get = any_bool("get");
#ifdef LV_VERIFY
        g_last = [&, get] {
            lv_assert(w.n.ctx->stopped_, "told to stop");
            w.n.req->method_ = get ? verb::get : verb::post;
            w.n.req->target_ = get ? "/api" : "/api/undo";
            w.n.complete({});
            w.n.complete({});
        };
#endif
    }
    g_last = nullptr;
    lv_assert(w.n.open == 0 && !w.n.op && !w.n.accept, "nothing is left");
#ifdef LV_VERIFY
    lv_assert(!g_thread.s, "nor is the thread");
#endif
}

// ... and everything the same when it happens again
