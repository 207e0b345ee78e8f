// Stand-in for libzmq: the documented behaviour of the calls a plugin can make, an in-process "network" between
// PUB and SUB sockets, and checks of the caller's obligations (sockets used by one thread at a time, not after they
// were closed; messages closed; all sockets closed before the context is terminated).
#pragma once
#include <zmq.h>
#include <cerrno>
#include <cstring>
#include <deque>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <vector>

namespace fz
{
  typedef std::vector<std::string> Parts;
  struct Socket
  {
    int type = 0;
    volatile int touched = 0;          // written by every use: two unordered uses are a data race
    bool open = true, bound = false, connected = false, failing = false;
    std::set<std::string> at;          // "bind tcp://..." / "connect tcp://..."
    std::vector<std::string> filters;
    std::mutex inboxMutex;
    std::deque<Parts> inbox;
    Parts reading; size_t next = 0;    // rest of the message being received
    Parts writing;
    std::vector<Parts> sent;           // PUB: everything handed to the network
    long rcvtimeo = -1;
  };
  struct Context { bool shut = false, termed = false; std::vector<Socket*> sockets; };
  struct Msg { uint64_t magic; char* data; size_t size; uint64_t more; const char* lent; };
  struct Lent { const char* at; std::string was; };          // memory ZMQ was given without a copy, still to be sent
  const uint64_t MAGIC = 0x51a7e0f3c0ffee01ull;

  static std::vector<Context*> contexts;
  static std::vector<Socket*> all;
  static int messagesOpen, calls, failAt;           // failAt: number of the call that fails (0: none)
  static std::vector<Lent> lent;
  static __thread int err;
  static std::string failed;                        // the call that failed

  inline void reset() { lent.clear(); contexts.clear(); all.clear(); messagesOpen = 0; calls = 0; failAt = 0; failed.clear(); }
  inline bool fails(const char* what) { if(++calls == failAt) { failed = what; return true; } return false; }

  inline void check_lent()
  {
    McQuiet q;
    for(auto& l : lent) if(memcmp(l.at, l.was.data(), l.was.size())) mc_fail("zmq-lent", "memory was handed to ZMQ without copying it, and reused or freed before ZMQ could send it");
    lent.clear();
  }
  inline Socket* use(void* s, const char* op)
  {
    if(s == nullptr) { err = ENOTSOCK; return nullptr; }
    Socket* k = static_cast<Socket*>(s);
    bool open;
    { McQuiet q; open = k->open; }
    if(!open) mc_fail("zmq-use-after-close", "%s on a socket that was closed", op);
    k->touched = k->touched + 1;
    check_lent();
    return k;
  }
  inline std::string port_of(const std::string& e) { return e.substr(e.rfind(':') + 1); }
  inline void transmit(Socket* from, const Parts& m)
  {
    from->sent.push_back(m);
    for(Socket* to : all)
    {
      if(to->type != ZMQ_SUB) continue;
      bool hit = false;
      {
        if(!to->open) continue;
        for(auto& a : from->at) for(auto& b : to->at)
          if(port_of(a) == port_of(b) && a[0] != b[0]) hit = true;      // one binds, the other connects
        bool f = false;
        for(auto& p : to->filters) if(m[0].compare(0, p.size(), p) == 0) f = true;
        hit = hit && f;
      }
      if(!hit) continue;
      mc_quiet(0);
      { std::lock_guard<std::mutex> l(to->inboxMutex); McQuiet q; to->inbox.push_back(m); }
      mc_quiet(1);
    }
  }
  inline void inject(Socket* to, const Parts& m)
  {
    std::lock_guard<std::mutex> l(to->inboxMutex);
    McQuiet q;
    bool f = false;
    for(auto& p : to->filters) if(m[0].compare(0, p.size(), p) == 0) f = true;
    if(f) to->inbox.push_back(m);
  }
  inline int do_send(void* s, const char* d, size_t n, int flags, const char* op)
  {
    Socket* k = use(s, op);
    if(!k) return -1;
    McQuiet q;
    if(k->type == ZMQ_SUB) { err = ENOTSUP; return -1; }
    k->writing.push_back(std::string(d, n));
    if(!(flags & ZMQ_SNDMORE)) { Parts m; m.swap(k->writing); transmit(k, m); }
    return (int)n;
  }
  // -1: nothing there
  inline int do_recv(void* s, int flags, std::string& out, const char* op)
  {
    Socket* k = use(s, op);
    if(!k) return -1;
    { McQuiet q; if(k->type != ZMQ_SUB) { err = ENOTSUP; return -1; } }
    for(long waited = 0;; waited++)
    {
      {
        std::lock_guard<std::mutex> l(k->inboxMutex);
        McQuiet q;
        if(k->next >= k->reading.size() && !k->inbox.empty()) { k->reading = k->inbox.front(); k->inbox.pop_front(); k->next = 0; }
        if(k->next < k->reading.size()) { out = k->reading[k->next++]; return (int)out.size(); }
        if((flags & ZMQ_DONTWAIT) || (k->rcvtimeo >= 0 && waited >= k->rcvtimeo)) { err = EAGAIN; return -1; }
        for(Context* c : contexts) for(Socket* x : c->sockets) if(x == k && c->shut) { err = ETERM; return -1; }
      }
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
  }
  inline bool rcvmore(Socket* k) { return k->next < k->reading.size(); }
  inline Msg* msg(zmq_msg_t* m, const char* op)
  {
    Msg* x = reinterpret_cast<Msg*>(m);
    if(x->magic != MAGIC) mc_fail("zmq-message", "%s on a message that is not initialised", op);
    return x;
  }
  inline void drop(Msg* x) { if(x->data) { messagesOpen--; delete[] x->data; } x->data = nullptr; x->size = 0; x->more = 0; x->lent = nullptr; }
  inline void fill(Msg* x, const char* d, size_t n) { drop(x); x->data = new char[n + 1]; messagesOpen++; if(d) std::memcpy(x->data, d, n); x->size = n; }
}

extern "C"
{
  void* zmq_ctx_new(void) { McQuiet q; if(fz::fails("zmq_ctx_new")) { fz::err = EMFILE; return nullptr; } fz::Context* c = new fz::Context(); fz::contexts.push_back(c); return c; }
  int zmq_ctx_shutdown(void* c) { McQuiet q; if(!c) { fz::err = EFAULT; return -1; } static_cast<fz::Context*>(c)->shut = true; return 0; }
  int zmq_ctx_term(void* c)
  {
    McQuiet q;
    fz::check_lent();
    if(!c) { fz::err = EFAULT; return -1; }
    fz::Context* x = static_cast<fz::Context*>(c);
    if(x->termed) mc_fail("zmq-context", "a context is terminated twice");
    x->shut = true;
    for(fz::Socket* s : x->sockets) if(s->open) mc_fail("zmq-hang", "the context is terminated while a socket is open: zmq_ctx_term would wait for ever");
    x->termed = true;
    return 0;
  }
  int zmq_ctx_destroy(void* c) { return zmq_ctx_term(c); }
  int zmq_term(void* c) { return zmq_ctx_term(c); }
  int zmq_ctx_set(void*, int, int) { return 0; }
  void* zmq_socket(void* c, int type)
  {
    McQuiet q;
    if(!c) { fz::err = EFAULT; return nullptr; }
    if(static_cast<fz::Context*>(c)->termed) mc_fail("zmq-context", "a socket is created in a terminated context");
    if(fz::fails("zmq_socket")) { fz::err = EMFILE; return nullptr; }
    fz::Socket* s = new fz::Socket(); s->type = type;
    static_cast<fz::Context*>(c)->sockets.push_back(s); fz::all.push_back(s);
    return s;
  }
  int zmq_close(void* s) { fz::Socket* k = fz::use(s, "zmq_close"); if(!k) return -1; McQuiet q; k->open = false; return 0; }
  static int fz_attach(void* s, const char* e, const char* op)
  {
    fz::Socket* k = fz::use(s, op);
    if(!k) return -1;
    McQuiet q;
    if(fz::fails(op)) { fz::err = EADDRINUSE; k->failing = true; return -1; }
    k->at.insert(std::string(op + 4) + " " + e);
    return 0;
  }
  int zmq_bind(void* s, const char* e) { return fz_attach(s, e, "zmq_bind"); }
  int zmq_connect(void* s, const char* e) { return fz_attach(s, e, "zmq_connect"); }
  int zmq_unbind(void* s, const char*) { return s ? 0 : -1; }
  int zmq_disconnect(void* s, const char*) { return s ? 0 : -1; }
  int zmq_setsockopt(void* s, int o, const void* v, size_t n)
  {
    fz::Socket* k = fz::use(s, "zmq_setsockopt");
    if(!k) return -1;
    McQuiet q;
    if(fz::fails("zmq_setsockopt")) { fz::err = EINVAL; k->failing = true; return -1; }
    if(o == ZMQ_SUBSCRIBE) k->filters.push_back(std::string((const char*)v, n));
    if(o == ZMQ_RCVTIMEO && n == sizeof(int)) k->rcvtimeo = *(const int*)v;
    return 0;
  }
  int zmq_getsockopt(void* s, int o, void* v, size_t* n)
  {
    fz::Socket* k = fz::use(s, "zmq_getsockopt");
    if(!k) return -1;
    McQuiet q;
    if(*n < sizeof(int)) { fz::err = EINVAL; return -1; }
    int x = 0;
    if(o == ZMQ_RCVMORE) x = fz::rcvmore(k);
    if(o == ZMQ_TYPE) x = k->type;
    if(o == ZMQ_EVENTS) { x = fz::rcvmore(k) || !k->inbox.empty() ? ZMQ_POLLIN : 0; if(k->type == ZMQ_PUB) x |= ZMQ_POLLOUT; }
    std::memcpy(v, &x, sizeof x); *n = sizeof x;
    return 0;
  }
  int zmq_msg_init(zmq_msg_t* m) { McQuiet q; fz::Msg* x = (fz::Msg*)m; x->magic = fz::MAGIC; x->data = nullptr; x->size = 0; x->more = 0; x->lent = nullptr; return 0; }
  int zmq_msg_init_size(zmq_msg_t* m, size_t n) { zmq_msg_init(m); McQuiet q; fz::fill((fz::Msg*)m, nullptr, n); return 0; }
  size_t zmq_msg_size(const zmq_msg_t* m) { McQuiet q; return fz::msg((zmq_msg_t*)m, "zmq_msg_size")->size; }
  void* zmq_msg_data(zmq_msg_t* m) { McQuiet q; fz::Msg* x = fz::msg(m, "zmq_msg_data"); static char empty[1]; return x->data ? x->data : empty; }
  int zmq_msg_close(zmq_msg_t* m) { McQuiet q; fz::Msg* x = (fz::Msg*)m; if(x->magic != fz::MAGIC) { fz::err = EFAULT; return -1; } fz::drop(x); x->magic = 0; return 0; }
  int zmq_msg_more(const zmq_msg_t* m) { McQuiet q; return (int)fz::msg((zmq_msg_t*)m, "zmq_msg_more")->more; }
  int zmq_msg_recv(zmq_msg_t* m, void* s, int flags)
  {
    std::string* d;
    { McQuiet q; fz::msg(m, "zmq_msg_recv"); d = new std::string(); }
    int r = fz::do_recv(s, flags, *d, "zmq_msg_recv");
    McQuiet q;
    if(r >= 0) { fz::fill((fz::Msg*)m, d->data(), d->size()); ((fz::Msg*)m)->more = fz::rcvmore((fz::Socket*)s); }
    delete d;
    return r;
  }
  int zmq_recvmsg(void* s, zmq_msg_t* m, int flags) { return zmq_msg_recv(m, s, flags); }
  int zmq_msg_send(zmq_msg_t* m, void* s, int flags)
  {
    fz::Msg* x;
    { McQuiet q; x = fz::msg(m, "zmq_msg_send"); }
    int r = fz::do_send(s, x->data ? x->data : "", x->size, flags, "zmq_msg_send");
    McQuiet q;
    if(r >= 0 && x->lent) fz::lent.push_back({x->lent, std::string(x->data, x->size)});
    if(r >= 0) fz::drop(x);
    return r;
  }
  int zmq_sendmsg(void* s, zmq_msg_t* m, int flags) { return zmq_msg_send(m, s, flags); }
  int zmq_send(void* s, const void* d, size_t n, int flags) { return fz::do_send(s, (const char*)d, n, flags, "zmq_send"); }
  int zmq_send_const(void* s, const void* d, size_t n, int flags) { int r = fz::do_send(s, (const char*)d, n, flags, "zmq_send"); McQuiet q; if(r > 0) fz::lent.push_back({(const char*)d, std::string((const char*)d, n)}); return r; }
  int zmq_recv(void* s, void* b, size_t n, int flags)
  {
    std::string* d;
    { McQuiet q; d = new std::string(); }
    int r = fz::do_recv(s, flags, *d, "zmq_recv");
    McQuiet q;
    if(r >= 0) std::memcpy(b, d->data(), std::min(n, d->size()));
    delete d;
    return r;
  }
  int zmq_msg_init_data(zmq_msg_t* m, void* d, size_t n, zmq_free_fn* f, void* hint) { zmq_msg_init(m); { McQuiet q; fz::fill((fz::Msg*)m, (const char*)d, n); if(!f && n) ((fz::Msg*)m)->lent = (const char*)d; } if(f) f(d, hint); return 0; }
  int zmq_msg_init_buffer(zmq_msg_t* m, const void* d, size_t n) { zmq_msg_init(m); McQuiet q; fz::fill((fz::Msg*)m, (const char*)d, n); return 0; }
  int zmq_msg_move(zmq_msg_t* to, zmq_msg_t* from)
  {
    McQuiet q;
    fz::Msg *a = fz::msg(to, "zmq_msg_move"), *b = fz::msg(from, "zmq_msg_move");
    fz::drop(a);
    a->data = b->data; a->size = b->size; a->more = b->more; a->lent = b->lent;
    b->data = nullptr; b->size = 0; b->more = 0; b->lent = nullptr;
    return 0;
  }
  int zmq_msg_copy(zmq_msg_t* to, zmq_msg_t* from)
  {
    McQuiet q;
    fz::Msg *a = fz::msg(to, "zmq_msg_copy"), *b = fz::msg(from, "zmq_msg_copy");
    uint64_t more = b->more;
    if(a != b) fz::fill(a, b->data ? b->data : "", b->size);
    a->more = more;
    return 0;
  }
  int zmq_msg_get(const zmq_msg_t* m, int o) { return o == ZMQ_MORE ? zmq_msg_more(m) : (fz::err = EINVAL, -1); }
  int zmq_ctx_get(void*, int) { return 0; }
  int zmq_poll(zmq_pollitem_t* it, int n, long timeout)
  {
    for(long waited = 0;; waited++)
    {
      int hit = 0;
      bool term = false;
      for(int i = 0; i < n; i++)
      {
        it[i].revents = 0;
        if(!it[i].socket) continue;
        fz::Socket* k = fz::use(it[i].socket, "zmq_poll");
        std::lock_guard<std::mutex> l(k->inboxMutex);
        McQuiet q;
        if((it[i].events & ZMQ_POLLIN) && (fz::rcvmore(k) || !k->inbox.empty())) it[i].revents |= ZMQ_POLLIN;
        if((it[i].events & ZMQ_POLLOUT) && k->type == ZMQ_PUB) it[i].revents |= ZMQ_POLLOUT;
        if(it[i].revents) hit++;
        for(fz::Context* c : fz::contexts) for(fz::Socket* x : c->sockets) if(x == k && c->shut) term = true;
      }
      if(hit) return hit;
      if(term) { fz::err = ETERM; return -1; }
      if(timeout >= 0 && waited >= timeout) return 0;
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
  }
  int zmq_errno(void) { return fz::err; }
  const char* zmq_strerror(int) { return "stand-in error"; }
}
