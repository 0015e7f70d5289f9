// Simulated kernel objects: pipes, stream/datagram sockets, epoll, timerfd, eventfd, poll/select.
// Semantics follow Linux (tcp_poll, tcp_sendmsg, tcp_recvmsg, tcp_reset, pipe(7), timerfd(2)).
// Compiled WITHOUT -fsanitize=thread.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "vsched.h"
#include "vs_int.h"
#include <sys/syscall.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <string.h>
#include <stdarg.h>
#include <stdio.h>
#include <dlfcn.h>
#include <memory>
#include <map>
#include <deque>
#include <string>
#include <vector>
#include <algorithm>

namespace vs {
enum Ty { T_PIPE_R, T_PIPE_W, T_SOCK, T_DGRAM, T_EPOLL, T_TIMER, T_EVENT };
enum SS { S_FRESH, S_LISTEN, S_CONNECTING, S_CONN, S_CLOSED };
struct File; typedef std::shared_ptr<File> FP;
struct PipeBuf { std::string d; bool rclosed=false,wclosed=false; };
struct EpItem { int fd; File* f; uint32_t ev; epoll_data_t data; uint64_t seen=~0ull; bool disabled=false; uint64_t stamp=0; };
struct Addr { uint32_t ip=0; int port=0; };
struct File {
    Ty ty; int nonblock=0; int opens=0; uint64_t act=0; int fdno=-1;
    // pipe
    std::shared_ptr<PipeBuf> pb;
    // socket
    SS st=S_FRESH; std::string rx; size_t rxcap=65536; std::weak_ptr<File> peer; bool had_peer=false;
    bool rcv_shut=false, snd_shut=false, fin_rcvd=false; int err=0;
    Addr la,pa; bool bound=false; bool ra=false,rport=false; std::deque<FP> aq; int backlog=0;
    bool lin_on=false; int lin_t=0; bool keep=false,nodelay=false; int sndbuf=65536,rcvbuf=65536;
    int64_t cdl=-1; int cres=0; Addr ctarget; int orphan=0;
    std::deque<std::pair<Addr,std::string>> dg;
    // epoll
    std::vector<EpItem> items;
    // timer
    int64_t next=-1, interval=0; uint64_t fired=0; int clk=0;
    // event
    uint64_t cnt=0; bool sem=false;
};
static const int FD0=500;
static std::map<int,FP> fds; static std::map<int,int> cloex;
static std::vector<std::weak_ptr<File>> all_socks;
static std::map<int,std::pair<ConnPolicy,int>> pol;
static int next_port=40000;

static FP get(int fd){ auto it=fds.find(fd); return it==fds.end()?FP():it->second; }
static bool mine(int fd){ return active() && fd>=FD0; }
static const char* kname(File* f){ switch(f->ty){ case T_PIPE_R:return "pipe_r"; case T_PIPE_W:return "pipe_w"; case T_SOCK:return f->st==S_LISTEN?"listen":"sock"; case T_DGRAM:return "dgram"; case T_EPOLL:return "epoll"; case T_TIMER:return "timer"; default:return "event";} }
static int newfd(FP f,int cloexec){ int fd=FD0; while(fds.count(fd)) fd++; fds[fd]=f; cloex[fd]=cloexec; f->opens++; f->fdno=fd; if(on_fd_open) on_fd_open(fd,kname(f.get())); return fd; }
static FP mk(Ty t,int nb){ FP f=std::make_shared<File>(); f->ty=t; f->nonblock=nb; f->rxcap=kopt.sock_rxcap; if(t==T_SOCK||t==T_DGRAM) all_socks.push_back(f); return f; }
static int E(int e){ errno=e; return -1; }
static void badfd(const char* op,int fd){ if(!is_env()) Ev("badfd").s_("op",op).i("fd",fd); }

void set_connect_policy(int port,ConnPolicy p,int d){ pol[port]={p,d}; }

// ---- sockets
static void do_reset(File* f){ // RST received
    if(f->st==S_CLOSED) return;
    if(f->st==S_CONNECTING) f->err=ECONNREFUSED; else f->err= f->fin_rcvd?EPIPE:ECONNRESET;
    f->st=S_CLOSED; f->rcv_shut=f->snd_shut=true; f->act++;
}
static FP find_listener(const Addr& a){
    for(auto& kv: fds){ FP f=kv.second; if(f->ty==T_SOCK&&f->st==S_LISTEN&&f->la.port==a.port&&(f->la.ip==0||f->la.ip==a.ip)) return f; }
    return FP();
}
static void establish(FP c){
    Addr t=c->ctarget; FP l=find_listener(t);
    if(!l){ c->st=S_CLOSED; c->err=ECONNREFUSED; c->rcv_shut=c->snd_shut=true; c->cdl=-1; c->act++; if(on_net) on_net(c->fdno,"connect_done",t.port,ECONNREFUSED); return; }
    FP s=mk(T_SOCK,0); s->st=S_CONN; s->la=t; if(s->la.ip==0) s->la.ip=INADDR_LOOPBACK; s->pa=c->la; s->bound=true;
    s->peer=c; c->peer=s; s->had_peer=c->had_peer=true; c->st=S_CONN; c->pa=t; c->cdl=-1; c->act++;
    l->aq.push_back(s); l->act++;
    if(on_net) on_net(c->fdno,"connect_done",t.port,0);
}
bool kern_next_deadline(int64_t& out){
    bool f=false; int64_t now=now_ns();
    for(auto& kv: fds){ File* x=kv.second.get();
        if(x->ty==T_TIMER&&x->next>=0&&x->fired==0&&x->next>now){ if(!f||x->next<out){out=x->next;f=true;} }
        if(x->ty==T_SOCK&&x->st==S_CONNECTING&&x->cdl>now){ if(!f||x->cdl<out){out=x->cdl;f=true;} }
    }
    return f;
}
void kern_tick(){
    int64_t now=now_ns();
    std::vector<FP> fs; for(auto& kv: fds) fs.push_back(kv.second);
    for(auto& x: fs){
        if(x->ty==T_TIMER&&x->next>=0&&x->next<=now){
            if(x->interval>0){ uint64_t k=1+(now-x->next)/x->interval; x->fired+=k; x->next+=k*x->interval; } else { x->fired++; x->next=-1; }
            x->act++;
        }
        if(x->ty==T_SOCK&&x->st==S_CONNECTING&&x->cdl>=0&&x->cdl<=now){
            if(x->cres==0) establish(x);
            else { x->st=S_CLOSED; x->err=x->cres; x->rcv_shut=x->snd_shut=true; x->cdl=-1; x->act++; if(on_net) on_net(x->fdno,"connect_done",x->ctarget.port,x->cres); }
        }
    }
}
static uint32_t bits(File* f){
    uint32_t m=0;
    switch(f->ty){
    case T_PIPE_R: if(!f->pb->d.empty()) m|=EPOLLIN; if(f->pb->wclosed) m|=EPOLLHUP; break;
    case T_PIPE_W: if((int)f->pb->d.size()<kopt.pipe_cap) { if(kopt.pipe_cap-(int)f->pb->d.size()>=std::min(4096,kopt.pipe_cap)) m|=EPOLLOUT; } if(f->pb->rclosed) m|=EPOLLERR; break;
    case T_TIMER: if(f->fired) m|=EPOLLIN; break;
    case T_EVENT: if(f->cnt) m|=EPOLLIN; if(f->cnt<~0ull-1) m|=EPOLLOUT; break;
    case T_DGRAM: if(!f->dg.empty()) m|=EPOLLIN; m|=EPOLLOUT; if(f->err) m|=EPOLLERR; break;
    case T_EPOLL: for(auto& it: f->items) if(!it.disabled&&(bits(it.f)&(it.ev|EPOLLERR|EPOLLHUP))) m|=EPOLLIN; break;
    case T_SOCK:
        if(f->st==S_LISTEN){ if(!f->aq.empty()) m|=EPOLLIN; break; }
        if(f->err) m|=EPOLLERR;
        if((f->rcv_shut&&f->snd_shut)||f->st==S_FRESH||f->st==S_CLOSED) m|=EPOLLHUP;
        if(f->rcv_shut) m|=EPOLLIN|EPOLLRDHUP;
        if(!f->rx.empty()) m|=EPOLLIN;
        if(f->st!=S_CONNECTING){
            if(f->snd_shut) m|=EPOLLOUT;
            else { FP p=f->peer.lock(); if(!f->had_peer||!p||p->rx.size()<p->rxcap) m|=EPOLLOUT; }
        }
        break;
    }
    if(m&EPOLLIN) m|=EPOLLRDNORM; if(m&EPOLLOUT) m|=EPOLLWRNORM;
    return m;
}
bool fd_readable(int fd){ kern_tick(); FP f=get(fd); return f&&(bits(f.get())&(EPOLLIN|EPOLLHUP|EPOLLERR|EPOLLRDHUP)); }
bool fd_writable(int fd){ kern_tick(); FP f=get(fd); return f&&(bits(f.get())&(EPOLLOUT|EPOLLHUP|EPOLLERR)); }
int open_fds(){ return (int)fds.size(); }
std::vector<int> open_fd_list(){ std::vector<int> v; for(auto& k: fds) v.push_back(k.first); return v; }
std::string fd_kind(int fd){ FP f=get(fd); return f?kname(f.get()):"none"; }
size_t sock_unread(int fd){ FP f=get(fd); return f?f->rx.size():0; }
bool fd_is_open(int fd){ return fds.count(fd)>0; }
bool sock_is_listening_port(int port){ for(auto& k: fds) if(k.second->ty==T_SOCK&&k.second->st==S_LISTEN&&k.second->la.port==port) return true; return false; }
int  sock_local_port(int fd){ FP f=get(fd); return f?f->la.port:-1; }
int  sock_peer_port(int fd){ FP f=get(fd); return f?f->pa.port:-1; }
bool fd_nonblock(int fd){ FP f=get(fd); return f&&f->nonblock; }
bool fd_cloexec(int fd){ auto it=cloex.find(fd); return it!=cloex.end()&&it->second; }
void set_rxcap(int fd,int cap){ FP f=get(fd); if(f) f->rxcap=cap; }

static void sock_release(FP f,bool abort_){
    if(f->st==S_LISTEN){ for(auto& s: f->aq){ FP p=s->peer.lock(); if(p) do_reset(p.get()); s->st=S_CLOSED; } f->aq.clear(); f->st=S_CLOSED; return; }
    if(f->st==S_CONN){
        FP p=f->peer.lock();
        if(p&&p->st==S_CONN){
            if(abort_||!f->rx.empty()||(f->lin_on&&f->lin_t==0)) do_reset(p.get());
            else if(!p->fin_rcvd){ p->fin_rcvd=true; p->rcv_shut=true; p->act++; }
        }
    }
    f->st=S_CLOSED; f->rcv_shut=f->snd_shut=true;
}
static void drop(FP f,bool abort_=false){
    if(--f->opens>0) return;
    for(auto& kv: fds) if(kv.second->ty==T_EPOLL){ auto& v=kv.second->items; v.erase(std::remove_if(v.begin(),v.end(),[&](const EpItem& i){return i.f==f.get();}),v.end()); }
    switch(f->ty){
    case T_PIPE_R: f->pb->rclosed=true; break;
    case T_PIPE_W: f->pb->wclosed=true; break;
    case T_SOCK: sock_release(f,abort_); break;
    default: break;
    }
}
void sock_reset(int fd){ FP f=get(fd); if(!f) return; fds.erase(fd); if(on_fd_close) on_fd_close(fd,kname(f.get())); drop(f,true); }

// how much of an otherwise complete transfer takes place: all of it, one byte, half, up to the end of some buffer of a vector call, or nothing
static size_t seg_end[8]; static int seg_n=0;
// with kopt.poll_fifo descriptors are reported in the order they became ready, as Linux does
static uint64_t ep_stamp=0;
static void stamp_ready(){ kern_tick(); for(auto& kv: fds) if(kv.second->ty==T_EPOLL) for(auto& it: kv.second->items){ uint32_t b=it.disabled?0:bits(it.f)&(it.ev|EPOLLERR|EPOLLHUP); if(!b) it.stamp=0; else if(!it.stamp) it.stamp=++ep_stamp; } }
static void ksp(){ sp(); if(kopt.poll_fifo) stamp_ready(); }
static size_t short_len(size_t k,const char* w,bool& again){
    again=false; std::vector<size_t> o{k}; if(kopt.short_io){ o.push_back(1); o.push_back(std::max<size_t>(1,k/2)); } size_t ea=0; if(kopt.spurious_eagain){ ea=o.size(); o.push_back(0); }
    if(kopt.short_io) for(int i=0;i<seg_n;i++) if(seg_end[i]>0&&seg_end[i]<k) o.push_back(seg_end[i]);
    int c=choose((int)o.size(),w); if(ea&&(size_t)c==ea){ again=true; return 0; } return o[c];
}
static void segs(const struct iovec* v,int c){ seg_n=0; size_t t=0; for(int i=0;i<c&&i<8;i++){ t+=v[i].iov_len; seg_end[seg_n++]=t; } }
static ssize_t do_read(int fd,FP f,char* b,size_t n,bool peek,bool dontwait){
    bool nb=f->nonblock||dontwait; bool env=is_env();
    for(;;){
        kern_tick();
        switch(f->ty){
        case T_PIPE_R:
            if(n==0) return 0;
            if(!f->pb->d.empty()){
                size_t k=std::min(n,f->pb->d.size());
                memcpy(b,f->pb->d.data(),k); f->pb->d.erase(0,k); f->act++; return k; }
            if(f->pb->wclosed) return 0; break;
        case T_TIMER: if(n<8) return E(EINVAL); if(f->fired){ uint64_t v=f->fired; f->fired=0; memcpy(b,&v,8); return 8; } break;
        case T_EVENT: if(n<8) return E(EINVAL); if(f->cnt){ uint64_t v=f->sem?1:f->cnt; f->cnt-=v; memcpy(b,&v,8); return 8; } break;
        case T_DGRAM: if(!f->dg.empty()){ size_t k=std::min(n,f->dg.front().second.size()); memcpy(b,f->dg.front().second.data(),k); if(!peek) f->dg.pop_front(); return k; } break;
        case T_SOCK:
            if(f->st==S_LISTEN||f->st==S_FRESH) return E(ENOTCONN);
            if(n==0) return 0;
            if(!f->rx.empty()){
                size_t k=std::min(n,f->rx.size());
                if(!env&&k>0&&nb){ bool ag; k=short_len(k,"rd",ag); if(ag) return E(EAGAIN); }
                memcpy(b,f->rx.data(),k); if(!peek){ f->rx.erase(0,k); FP p=f->peer.lock(); if(p) p->act++; } return k; }
            if(f->err){ int e=f->err; f->err=0; return E(e); }
            if(f->rcv_shut||f->st==S_CLOSED) return 0;
            break;
        default: return E(EINVAL);
        }
        if(nb) return E(EAGAIN);
        FP g=f; block([g]{kern_tick(); return (bits(g.get())&(EPOLLIN|EPOLLHUP|EPOLLERR))!=0;},false,0,"read");
        if(!fds.count(fd)) return E(EBADF);
    }
}
static int sigpipe(bool nosig,const char* w){
    if(!nosig&&!is_env()){
        struct sigaction sa; sigaction(SIGPIPE,nullptr,&sa);
        bool blocked=false; sigset_t ss; sigprocmask(SIG_BLOCK,nullptr,&ss); blocked=sigismember(&ss,SIGPIPE);
        if(sa.sa_handler==SIG_DFL&&!blocked){ log_raw(std::string("{\"e\":\"sigpipe\",\"t\":")+std::to_string(tid())+",\"w\":\""+w+"\"}"); finish("killed_sigpipe"); }
    }
    return E(EPIPE);
}
static ssize_t do_write(int fd,FP f,const char* b,size_t n,bool nosig,bool dontwait){
    bool nb=f->nonblock||dontwait; bool env=is_env(); size_t done=0;
    for(;;){
        kern_tick();
        switch(f->ty){
        case T_PIPE_W: {
            if(f->pb->rclosed) return sigpipe(nosig,"pipe");
            size_t room=kopt.pipe_cap-(int)f->pb->d.size();
            if(n-done<=4096){ if(room>=n-done){ f->pb->d.append(b+done,n-done); f->act++; return n; } }
            else if(room>0){ size_t k=std::min(room,n-done); f->pb->d.append(b+done,k); f->act++; done+=k; if(nb||done==n) return done; }
            break; }
        case T_EVENT: { if(n<8) return E(EINVAL); uint64_t v; memcpy(&v,b,8); if(f->cnt+v<f->cnt||f->cnt+v==~0ull) break; f->cnt+=v; f->act++; return 8; }
        case T_SOCK: {
            if(f->st==S_CONNECTING){ if(nb) return E(EAGAIN); break; }
            if(f->st==S_FRESH||f->st==S_LISTEN) return sigpipe(nosig,"unconnected");
            if(f->err||f->snd_shut){ if(f->err){ int e=f->err; f->err=0; if(e==EPIPE) return sigpipe(nosig,"sock"); return E(e); } return sigpipe(nosig,"sock"); }
            FP p=f->peer.lock();
            if(n==0) return 0;
            if(!p||p->st!=S_CONN||p->rcv_shut){
                if(p&&p->st==S_CONN&&p->rcv_shut&&p->fin_rcvd) { }
                // data reaches a socket that no longer accepts it: accepted here, RST comes back
                size_t k=n-done;
                if(p) do_reset(p.get());
                do_reset(f.get()); f->act++;
                return done+k;
            }
            size_t room=p->rx.size()<p->rxcap?p->rxcap-p->rx.size():0;
            if(room>0){
                size_t k=std::min(room,n-done);
                if(!env&&nb){ bool ag; k=short_len(k,"wr",ag); if(ag) return E(EAGAIN); }
                p->rx.append(b+done,k); p->act++; done+=k;
                if(nb||done==n) return done;
                continue;
            }
            if(done&&nb) return done;
            break; }
        case T_DGRAM: return E(EDESTADDRREQ);
        default: return E(EINVAL);
        }
        if(nb) return E(EAGAIN);
        FP g=f; block([g]{kern_tick(); return (bits(g.get())&(EPOLLOUT|EPOLLHUP|EPOLLERR))!=0;},false,0,"write");
        if(!fds.count(fd)) return E(EBADF);
    }
}
static Addr from_sa(const struct sockaddr* a){ Addr r; const sockaddr_in* s=(const sockaddr_in*)a; r.ip=ntohl(s->sin_addr.s_addr); r.port=ntohs(s->sin_port); return r; }
static void to_sa(const Addr& x,struct sockaddr* a,socklen_t* l){ if(!a||!l) return; sockaddr_in s; memset(&s,0,sizeof s); s.sin_family=AF_INET; s.sin_addr.s_addr=htonl(x.ip); s.sin_port=htons(x.port); memcpy(a,&s,std::min<size_t>(*l,sizeof s)); *l=sizeof s; }

// ---- readiness collection shared by epoll/poll/select
static int ep_collect(FP ep,struct epoll_event* out,int maxev){
    kern_tick();
    std::vector<size_t> rd;
    for(size_t i=0;i<ep->items.size();i++){ auto& it=ep->items[i]; if(it.disabled) continue; uint32_t b=bits(it.f)&(it.ev|EPOLLERR|EPOLLHUP); if(!b) continue; if((it.ev&EPOLLET)&&it.seen==it.f->act) continue; rd.push_back(i); }
    if(rd.empty()) return 0;
    if(kopt.poll_fifo){ stamp_ready(); std::stable_sort(rd.begin(),rd.end(),[&](size_t a,size_t b){ return ep->items[a].stamp<ep->items[b].stamp; }); }
    if(rd.size()>1&&kopt.poll_order&&!is_env()){ int c=choose((int)rd.size(),"order"); std::rotate(rd.begin(),rd.begin()+c,rd.end()); }
    int n=0; std::vector<EpItem> moved; std::vector<size_t> idx;
    for(size_t k=0;k<rd.size()&&n<maxev;k++){ auto& it=ep->items[rd[k]]; out[n].events=bits(it.f)&((it.ev&~(EPOLLET|EPOLLONESHOT))|EPOLLERR|EPOLLHUP); out[n].data=it.data; n++; it.seen=it.f->act; if(it.ev&EPOLLONESHOT) it.disabled=true; idx.push_back(rd[k]); }
    for(size_t i: idx) moved.push_back(ep->items[i]);
    std::sort(idx.begin(),idx.end()); for(size_t k=idx.size();k-->0;) ep->items.erase(ep->items.begin()+idx[k]);
    for(auto& m: moved){ if(kopt.poll_fifo) m.stamp=++ep_stamp; ep->items.push_back(m); }
    return n;
}
static bool ep_any(FP ep){ kern_tick(); for(auto& it: ep->items){ if(it.disabled) continue; uint32_t b=bits(it.f)&(it.ev|EPOLLERR|EPOLLHUP); if(b&&!((it.ev&EPOLLET)&&it.seen==it.f->act)) return true; } return false; }
template<class A,class C> static int wait_generic(A any,C collect,int64_t tmo_ns,const char* where){
    ksp();
    if(kopt.eintr&&!is_env()&&tmo_ns!=0){ if(choose(2,"eintr")==1) return E(EINTR); }
    if(on_poll&&!is_env()) on_poll();
    int n=collect(); if(n!=0||tmo_ns==0) return n;
    if(on_poll_block&&!is_env()) on_poll_block();
    int64_t dl= tmo_ns<0?0:now_ns()+tmo_ns;
    bool ok=block(any,tmo_ns>=0,dl,where);
    if(!ok) return 0;
    if(on_poll&&!is_env()) on_poll();
    return collect();
}
} // namespace vs
using namespace vs;

extern "C" {
int __real_syscall_dummy_vk;
int pipe2(int p[2],int fl){
    if(!active()) return syscall(SYS_pipe2,p,fl);
    ksp();
    auto pb=std::make_shared<PipeBuf>(); FP r=mk(T_PIPE_R,(fl&O_NONBLOCK)!=0), w=mk(T_PIPE_W,(fl&O_NONBLOCK)!=0); r->pb=w->pb=pb;
    p[0]=newfd(r,(fl&O_CLOEXEC)!=0); p[1]=newfd(w,(fl&O_CLOEXEC)!=0); return 0;
}
int pipe(int p[2]){ return pipe2(p,0); }
int eventfd(unsigned c,int fl){ if(!active()) return syscall(SYS_eventfd2,c,fl); ksp(); FP f=mk(T_EVENT,(fl&EFD_NONBLOCK)!=0); f->cnt=c; f->sem=(fl&EFD_SEMAPHORE)!=0; return newfd(f,(fl&EFD_CLOEXEC)!=0); }
int timerfd_create(int clk,int fl){ if(!active()) return syscall(SYS_timerfd_create,clk,fl); ksp(); if(kopt.timer_fail&&!is_env()&&choose(3,"timerfail")==1) return E(EMFILE); FP f=mk(T_TIMER,(fl&TFD_NONBLOCK)!=0); f->clk=clk; return newfd(f,(fl&TFD_CLOEXEC)!=0); }
int timerfd_settime(int fd,int fl,const struct itimerspec* nv,struct itimerspec* ov){
    if(!mine(fd)) return syscall(SYS_timerfd_settime,fd,fl,nv,ov);
    FP f=get(fd); if(!f||f->ty!=T_TIMER) return E(EINVAL); ksp();
    if(ov) memset(ov,0,sizeof *ov);
    int64_t v=(int64_t)nv->it_value.tv_sec*1000000000ll+nv->it_value.tv_nsec; int64_t iv=(int64_t)nv->it_interval.tv_sec*1000000000ll+nv->it_interval.tv_nsec;
    if(nv->it_value.tv_nsec>=1000000000l||nv->it_interval.tv_nsec>=1000000000l) return E(EINVAL);
    f->fired=0; f->interval=iv; f->act++;
    if(v==0) f->next=-1; else if(fl&TFD_TIMER_ABSTIME) f->next=v-(f->clk==CLOCK_REALTIME?REALTIME_BASE:0); else f->next=now_ns()+v;
    return 0;
}
int epoll_create1(int fl){ if(!active()) return syscall(SYS_epoll_create1,fl); ksp(); return newfd(mk(T_EPOLL,0),(fl&EPOLL_CLOEXEC)!=0); }
int epoll_create(int){ return epoll_create1(0); }
int epoll_ctl(int ep,int op,int fd,struct epoll_event* ev){
    if(!mine(ep)) return syscall(SYS_epoll_ctl,ep,op,fd,ev);
    ksp(); FP e=get(ep); if(!e||e->ty!=T_EPOLL){ badfd("epoll_ctl_ep",ep); return E(EBADF); } FP f=get(fd); if(!f){ badfd("epoll_ctl",fd); return E(EBADF); }
    for(size_t i=0;i<e->items.size();i++) if(e->items[i].fd==fd&&e->items[i].f==f.get()){
        if(op==EPOLL_CTL_ADD) return E(EEXIST);
        if(op==EPOLL_CTL_DEL){ e->items.erase(e->items.begin()+i); return 0; }
        e->items[i].ev=ev->events; e->items[i].data=ev->data; e->items[i].disabled=false; e->items[i].seen=~0ull; return 0; }
    if(op!=EPOLL_CTL_ADD) return E(ENOENT);
    EpItem it; it.fd=fd; it.f=f.get(); it.ev=ev->events; it.data=ev->data; e->items.push_back(it); return 0;
}
int epoll_wait(int ep,struct epoll_event* out,int maxev,int tmo){
    if(!mine(ep)) return syscall(SYS_epoll_pwait,ep,out,maxev,tmo,nullptr,8);
    FP e=get(ep); if(!e||e->ty!=T_EPOLL) return E(EBADF); if(maxev<=0) return E(EINVAL);
    return wait_generic([e]{return ep_any(e);},[&]{return ep_collect(e,out,maxev);},tmo<0?-1:(int64_t)tmo*1000000,"epoll");
}
int epoll_pwait(int ep,struct epoll_event* out,int maxev,int tmo,const sigset_t*){ return epoll_wait(ep,out,maxev,tmo); }
int poll(struct pollfd* p,nfds_t n,int tmo){
    if(!active()) { struct timespec ts={tmo/1000,(tmo%1000)*1000000l}; return syscall(SYS_ppoll,p,n,tmo<0?nullptr:&ts,nullptr,8); }
    auto col=[=]{ kern_tick(); int k=0; for(nfds_t i=0;i<n;i++){ p[i].revents=0; if(p[i].fd<0) continue; FP f=get(p[i].fd); if(!f){ p[i].revents=POLLNVAL; k++; continue; } uint32_t b=bits(f.get()); p[i].revents=(short)(b&(p[i].events|POLLERR|POLLHUP)); if(p[i].revents) k++; } return k; };
    return wait_generic([col]{return col()>0;},col,tmo<0?-1:(int64_t)tmo*1000000,"poll");
}
int ppoll(struct pollfd* p,nfds_t n,const struct timespec* ts,const sigset_t*){ return poll(p,n,ts?(int)(ts->tv_sec*1000+ts->tv_nsec/1000000):-1); }
int select(int nf,fd_set* r,fd_set* w,fd_set* x,struct timeval* tv){
    if(!active()) return syscall(SYS_select,nf,r,w,x,tv);
    fd_set r0,w0,x0; FD_ZERO(&r0);FD_ZERO(&w0);FD_ZERO(&x0); if(r) r0=*r; if(w) w0=*w; if(x) x0=*x;
    for(int i=FD0;i<nf;i++) if((FD_ISSET(i,&r0)||FD_ISSET(i,&w0)||FD_ISSET(i,&x0))&&!get(i)){ badfd("select",i); return E(EBADF); }
    auto col=[=](bool fill){ kern_tick(); int k=0; fd_set ro,wo,xo; FD_ZERO(&ro);FD_ZERO(&wo);FD_ZERO(&xo);
        for(int i=FD0;i<nf;i++){ FP f=get(i); if(!f) continue; uint32_t b=bits(f.get());
            if(FD_ISSET(i,&r0)&&(b&(EPOLLIN|EPOLLHUP|EPOLLERR))){ FD_SET(i,&ro);k++; }
            if(FD_ISSET(i,&w0)&&(b&(EPOLLOUT|EPOLLERR))){ FD_SET(i,&wo);k++; } }
        if(fill&&r)*r=ro; if(fill&&w)*w=wo; if(fill&&x)*x=xo; return k; };
    int64_t t= tv? (int64_t)tv->tv_sec*1000000000ll+tv->tv_usec*1000ll : -1;
    return wait_generic([=]{return col(false)>0;},[=]{return col(true);},t,"select");
}
ssize_t read(int fd,void* b,size_t n){
    if(!mine(fd)) return syscall(SYS_read,fd,b,n);
    ksp(); FP f=get(fd); if(!f){ badfd("read",fd); return E(EBADF); } return do_read(fd,f,(char*)b,n,false,false);
}
ssize_t write(int fd,const void* b,size_t n){
    if(!mine(fd)) return syscall(SYS_write,fd,b,n);
    ksp(); FP f=get(fd); if(!f){ badfd("write",fd); return E(EBADF); } return do_write(fd,f,(const char*)b,n,false,false);
}
ssize_t readv(int fd,const struct iovec* v,int c){
    if(!mine(fd)) return syscall(SYS_readv,fd,v,c);
    ksp(); FP f=get(fd); if(!f){ badfd("readv",fd); return E(EBADF); }
    size_t tot=0; for(int i=0;i<c;i++) tot+=v[i].iov_len; std::string t(tot?tot:1,'\0'); segs(v,c); ssize_t k=do_read(fd,f,&t[0],tot,false,false); seg_n=0; if(k<=0) return k;
    size_t o=0; for(int i=0;i<c&&o<(size_t)k;i++){ size_t m=std::min(v[i].iov_len,(size_t)k-o); memcpy(v[i].iov_base,t.data()+o,m); o+=m; } return k;
}
ssize_t writev(int fd,const struct iovec* v,int c){
    if(!mine(fd)) return syscall(SYS_writev,fd,v,c);
    ksp(); FP f=get(fd); if(!f){ badfd("writev",fd); return E(EBADF); }
    std::string t; for(int i=0;i<c;i++) t.append((const char*)v[i].iov_base,v[i].iov_len); segs(v,c); ssize_t k=do_write(fd,f,t.data(),t.size(),false,false); seg_n=0; return k;
}
ssize_t recv(int fd,void* b,size_t n,int fl){
    if(!mine(fd)) return syscall(SYS_recvfrom,fd,b,n,fl,0,0);
    ksp(); FP f=get(fd); if(!f){ badfd("recv",fd); return E(EBADF); } return do_read(fd,f,(char*)b,n,(fl&MSG_PEEK)!=0,(fl&MSG_DONTWAIT)!=0);
}
ssize_t send(int fd,const void* b,size_t n,int fl){
    if(!mine(fd)) return syscall(SYS_sendto,fd,b,n,fl,0,0);
    ksp(); FP f=get(fd); if(!f){ badfd("send",fd); return E(EBADF); } return do_write(fd,f,(const char*)b,n,(fl&MSG_NOSIGNAL)!=0,(fl&MSG_DONTWAIT)!=0);
}
ssize_t recvfrom(int fd,void* b,size_t n,int fl,struct sockaddr* a,socklen_t* al){
    if(!mine(fd)) return syscall(SYS_recvfrom,fd,b,n,fl,a,al);
    FP f=get(fd); if(f&&f->ty==T_DGRAM&&!f->dg.empty()) to_sa(f->dg.front().first,a,al);
    return recv(fd,b,n,fl);
}
ssize_t sendto(int fd,const void* b,size_t n,int fl,const struct sockaddr* a,socklen_t al){
    if(!mine(fd)) return syscall(SYS_sendto,fd,b,n,fl,a,al);
    FP f=get(fd); if(!f) return E(EBADF);
    if(f->ty!=T_DGRAM||!a) return send(fd,b,n,fl);
    ksp(); Addr t=from_sa(a); if(!f->bound){ f->bound=true; f->la.ip=INADDR_LOOPBACK; f->la.port=next_port++; }
    for(auto& kv: fds) if(kv.second->ty==T_DGRAM&&kv.second->bound&&kv.second->la.port==t.port){ kv.second->dg.push_back({f->la,std::string((const char*)b,n)}); kv.second->act++; break; }
    return n;
}
ssize_t recvmsg(int fd,struct msghdr* m,int fl){ if(!mine(fd)) return syscall(SYS_recvmsg,fd,m,fl); (void)fl; return readv(fd,m->msg_iov,m->msg_iovlen); }
ssize_t sendmsg(int fd,const struct msghdr* m,int fl){
    if(!mine(fd)) return syscall(SYS_sendmsg,fd,m,fl);
    ksp(); FP f=get(fd); if(!f) return E(EBADF); std::string t; for(size_t i=0;i<m->msg_iovlen;i++) t.append((const char*)m->msg_iov[i].iov_base,m->msg_iov[i].iov_len); return do_write(fd,f,t.data(),t.size(),(fl&MSG_NOSIGNAL)!=0,(fl&MSG_DONTWAIT)!=0);
}
int socket(int d,int t,int p){
    if(!active()||d!=AF_INET) return syscall(SYS_socket,d,t,p);
    ksp(); if(kopt.sock_fail&&!is_env()&&choose(2,"sockfail")==1){ Ev("sfail").i("t",tid()).i("now",(now_ns()-1000000000ll)/1000); return E(EMFILE); } int ty=t&0xff; FP f=mk(ty==SOCK_DGRAM?T_DGRAM:T_SOCK,(t&SOCK_NONBLOCK)!=0); return newfd(f,(t&SOCK_CLOEXEC)!=0);
}
int socketpair(int d,int t,int p,int sv[2]){
    if(!active()) return syscall(SYS_socketpair,d,t,p,sv);
    ksp(); FP a=mk(T_SOCK,(t&SOCK_NONBLOCK)!=0),b=mk(T_SOCK,(t&SOCK_NONBLOCK)!=0); a->st=b->st=S_CONN; a->peer=b; b->peer=a; a->had_peer=b->had_peer=true; a->la.ip=b->la.ip=a->pa.ip=b->pa.ip=INADDR_LOOPBACK; a->la.port=b->pa.port=next_port++; b->la.port=a->pa.port=next_port++; a->bound=b->bound=true;
    sv[0]=newfd(a,(t&SOCK_CLOEXEC)!=0); sv[1]=newfd(b,(t&SOCK_CLOEXEC)!=0); return 0;
}
int bind(int fd,const struct sockaddr* a,socklen_t l){
    if(!mine(fd)) return syscall(SYS_bind,fd,a,l);
    ksp(); FP f=get(fd); if(!f) return E(EBADF); if(f->bound) return E(EINVAL);
    Addr t=from_sa(a); int res=0;
    if(t.port!=0) for(auto& w: all_socks){ FP o=w.lock(); if(!o||o==f||o->ty!=f->ty||!o->bound||o->la.port!=t.port||o->opens==0) continue; if(o->st==S_CLOSED) continue;
        if(o->la.ip!=0&&t.ip!=0&&o->la.ip!=t.ip) continue;
        if(o->rport&&f->rport) continue;
        if(o->ra&&f->ra&&o->st!=S_LISTEN) continue;
        res=EADDRINUSE; }
    if(on_net) on_net(fd,"bind",t.port,res);
    if(res) return E(res);
    if(t.port==0) t.port=next_port++;
    f->la=t; f->bound=true; return 0;
}
int listen(int fd,int bl){
    if(!mine(fd)) return syscall(SYS_listen,fd,bl);
    ksp(); FP f=get(fd); if(!f){ badfd("listen",fd); return E(EBADF); } if(f->ty!=T_SOCK||(f->st!=S_FRESH&&f->st!=S_LISTEN)) return E(EINVAL);
    if(!f->bound){ f->bound=true; f->la.port=next_port++; }
    f->st=S_LISTEN; f->backlog=bl; if(on_net) on_net(fd,"listen",f->la.port,0); return 0;
}
int accept4(int fd,struct sockaddr* a,socklen_t* al,int fl){
    if(!mine(fd)) return syscall(SYS_accept4,fd,a,al,fl);
    ksp(); FP f=get(fd); if(!f){ badfd("accept",fd); return E(EBADF); }
    for(;;){
        if(f->ty!=T_SOCK||f->st!=S_LISTEN) return E(EINVAL);
        if(!f->aq.empty()){ 
            if(!is_env()&&kopt.accept_fail&&choose(2,"accept")==1){ if(on_net) on_net(-1,"accept",f->la.port,EMFILE); return E(EMFILE); }
            FP s=f->aq.front(); f->aq.pop_front(); s->nonblock=(fl&SOCK_NONBLOCK)!=0; int n=newfd(s,(fl&SOCK_CLOEXEC)!=0); to_sa(s->pa,a,al); if(on_net) on_net(n,"accept",f->la.port,0); return n; }
        if(f->nonblock) return E(EAGAIN);
        FP g=f; block([g]{return !g->aq.empty()||g->st!=S_LISTEN;},false,0,"accept");
        if(!fds.count(fd)) return E(EBADF);
    }
}
int accept(int fd,struct sockaddr* a,socklen_t* al){ if(!mine(fd)) return syscall(SYS_accept,fd,a,al); return accept4(fd,a,al,0); }
int connect(int fd,const struct sockaddr* a,socklen_t l){
    if(!mine(fd)) return syscall(SYS_connect,fd,a,l);
    ksp(); FP f=get(fd); if(!f){ badfd("connect",fd); return E(EBADF); }
    if(f->ty==T_DGRAM){ f->pa=from_sa(a); return 0; }
    if(f->st==S_CONN) return E(EISCONN); if(f->st==S_LISTEN) return E(EINVAL); if(f->st==S_CONNECTING) return E(EALREADY);
    if(f->st==S_CLOSED){ if(f->err){ int e=f->err; f->err=0; return E(e);} f->st=S_FRESH; f->rcv_shut=f->snd_shut=false; }
    Addr t=from_sa(a); f->ctarget=t; if(!f->bound||f->la.ip==0){ if(!f->bound) f->la.port=next_port++; f->la.ip=INADDR_LOOPBACK; f->bound=true; }
    auto it=pol.find(t.port); ConnPolicy p=it==pol.end()?CP_AUTO:it->second.first; int d=it==pol.end()?0:it->second.second;
    if(on_net) on_net(fd,"connect",t.port,p==CP_UNREACH?ENETUNREACH:0);
    if(p==CP_UNREACH) return E(ENETUNREACH);
    f->st=S_CONNECTING; f->act++;
    switch(p){
    case CP_AUTO: establish(f); if(kopt.conn_now&&!is_env()&&f->st==S_CONN&&choose(2,"now")==1) return 0; break;
    case CP_REFUSE: f->st=S_CLOSED; f->err=ECONNREFUSED; f->rcv_shut=f->snd_shut=true; if(on_net) on_net(fd,"connect_done",t.port,ECONNREFUSED); break;
    case CP_HANG: f->cdl=-1; break;
    case CP_DELAY: f->cdl=now_ns()+(int64_t)d*1000000; f->cres=0; break;
    case CP_DELAY_REFUSE: f->cdl=now_ns()+(int64_t)d*1000000; f->cres=ECONNREFUSED; break;
    case CP_TIMEOUT: f->cdl=now_ns()+(int64_t)(d?d:127000)*1000000; f->cres=ETIMEDOUT; break;
    default: break;
    }
    if(f->nonblock) return E(EINPROGRESS);
    FP g=f; block([g]{kern_tick(); return g->st!=S_CONNECTING;},false,0,"connect");
    if(f->st==S_CONN) return 0; int e=f->err; f->err=0; return E(e?e:ECONNABORTED);
}
int shutdown(int fd,int how){
    if(!mine(fd)) return syscall(SYS_shutdown,fd,how);
    ksp(); FP f=get(fd); if(!f){ badfd("shutdown",fd); return E(EBADF); } if(f->ty!=T_SOCK) return E(ENOTSOCK);
    if(f->st==S_LISTEN){ if(how!=SHUT_WR) sock_release(f,false); return 0; }
    if(f->st!=S_CONN) return E(ENOTCONN);
    FP p=f->peer.lock();
    if(how==SHUT_WR||how==SHUT_RDWR){ if(!f->snd_shut){ f->snd_shut=true; if(p&&p->st==S_CONN&&!p->fin_rcvd){ p->fin_rcvd=true; p->rcv_shut=true; p->act++; } } }
    if(how==SHUT_RD||how==SHUT_RDWR) f->rcv_shut=true;
    f->act++; return 0;
}
int close(int fd){
    if(!mine(fd)) return syscall(SYS_close,fd);
    ksp(); FP f=get(fd); if(!f){ badfd("close",fd); return E(EBADF); }
    if(on_fd_close) on_fd_close(fd,kname(f.get()));
    fds.erase(fd); drop(f); return 0;
}
int dup(int fd){ if(!mine(fd)) return syscall(SYS_dup,fd); FP f=get(fd); if(!f) return E(EBADF); return newfd(f,0); }
int setsockopt(int fd,int lv,int op,const void* v,socklen_t l){
    if(!mine(fd)) return syscall(SYS_setsockopt,fd,lv,op,v,l);
    FP f=get(fd); if(!f) return E(EBADF); int x=0; if(l>=sizeof(int)) memcpy(&x,v,sizeof x);
    if(lv==SOL_SOCKET){ switch(op){ case SO_REUSEADDR: f->ra=x!=0; break; case SO_REUSEPORT: f->rport=x!=0; break; case SO_KEEPALIVE: f->keep=x!=0; break; case SO_SNDBUF: f->sndbuf=x; break; case SO_RCVBUF: f->rcvbuf=x; break; case SO_LINGER: { struct linger g; if(l<sizeof g) return E(EINVAL); memcpy(&g,v,sizeof g); f->lin_on=g.l_onoff!=0; f->lin_t=g.l_linger; break; } default: break; } }
    else if(lv==IPPROTO_TCP&&op==TCP_NODELAY) f->nodelay=x!=0;
    return 0;
}
int getsockopt(int fd,int lv,int op,void* v,socklen_t* l){
    if(!mine(fd)) return syscall(SYS_getsockopt,fd,lv,op,v,l);
    kern_tick(); FP f=get(fd); if(!f){ badfd("getsockopt",fd); return E(EBADF); } int x=0;
    if(lv==SOL_SOCKET){ switch(op){ case SO_ERROR: x=f->err; f->err=0; break; case SO_TYPE: x=f->ty==T_DGRAM?SOCK_DGRAM:SOCK_STREAM; break; case SO_REUSEADDR: x=f->ra; break; case SO_REUSEPORT: x=f->rport; break; case SO_KEEPALIVE: x=f->keep; break; case SO_ACCEPTCONN: x=f->st==S_LISTEN; break; case SO_SNDBUF: x=f->sndbuf; break; case SO_RCVBUF: x=f->rcvbuf; break;
        case SO_LINGER: { struct linger g; g.l_onoff=f->lin_on; g.l_linger=f->lin_t; memcpy(v,&g,sizeof g); *l=sizeof g; return 0; } default: break; } }
    else if(lv==IPPROTO_TCP&&op==TCP_NODELAY) x=f->nodelay;
    if(*l>=sizeof x){ memcpy(v,&x,sizeof x); *l=sizeof x; } return 0;
}
int getsockname(int fd,struct sockaddr* a,socklen_t* l){ if(!mine(fd)) return syscall(SYS_getsockname,fd,a,l); FP f=get(fd); if(!f) return E(EBADF); to_sa(f->la,a,l); return 0; }
int getpeername(int fd,struct sockaddr* a,socklen_t* l){ if(!mine(fd)) return syscall(SYS_getpeername,fd,a,l); FP f=get(fd); if(!f) return E(EBADF); if(f->st!=S_CONN) return E(ENOTCONN); to_sa(f->pa,a,l); return 0; }
int fcntl(int fd,int cmd,...){
    va_list ap; va_start(ap,cmd); long arg=va_arg(ap,long); va_end(ap);
    if(!mine(fd)) return syscall(SYS_fcntl,fd,cmd,arg);
    FP f=get(fd); if(!f){ badfd("fcntl",fd); return E(EBADF); }
    switch(cmd){ case F_GETFL: return O_RDWR|(f->nonblock?O_NONBLOCK:0); case F_SETFL: if(kopt.fcntl_fail&&!is_env()&&choose(2,"fcntlfail")==1){ Ev("ffail").i("t",tid()); return E(EINVAL); } f->nonblock=(arg&O_NONBLOCK)!=0; return 0; case F_GETFD: return cloex[fd]?FD_CLOEXEC:0; case F_SETFD: if(kopt.setfd_fail&&!is_env()&&choose(2,"setfdfail")==1){ Ev("ffail").i("t",tid()); return E(EINVAL); } cloex[fd]=(arg&FD_CLOEXEC)!=0; return 0; case F_DUPFD: return newfd(f,0); case F_DUPFD_CLOEXEC: return newfd(f,1); default: return 0; }
}
int fcntl64(int fd,int cmd,...){ va_list ap; va_start(ap,cmd); long arg=va_arg(ap,long); va_end(ap); return fcntl(fd,cmd,arg); }
int ioctl(int fd,unsigned long rq,...){
    va_list ap; va_start(ap,rq); void* arg=va_arg(ap,void*); va_end(ap);
    if(!mine(fd)) return syscall(SYS_ioctl,fd,rq,arg);
    FP f=get(fd); if(!f) return E(EBADF);
    if(rq==FIONBIO){ f->nonblock=*(int*)arg!=0; return 0; } if(rq==FIONREAD){ *(int*)arg=(int)(f->pb?f->pb->d.size():f->rx.size()); return 0; } return 0;
}

// Streams on files of the scratch directory /tmp/vlog.*: every transfer to the file is a scheduling point
struct VFile { int fd; };
static ssize_t vf_write(void* c,const char* b,size_t n){ VFile* v=(VFile*)c; ksp(); return syscall(SYS_write,v->fd,b,n); }
static ssize_t vf_read(void* c,char* b,size_t n){ VFile* v=(VFile*)c; ksp(); return syscall(SYS_read,v->fd,b,n); }
static int vf_seek(void* c,off64_t* o,int w){ VFile* v=(VFile*)c; off64_t r=lseek64(v->fd,*o,w); if(r<0) return -1; *o=r; return 0; }
static int vf_close(void* c){ VFile* v=(VFile*)c; ksp(); int r=syscall(SYS_close,v->fd); delete v; return r; }
FILE* fopen(const char* p,const char* m){
    static FILE*(*real)(const char*,const char*)=(FILE*(*)(const char*,const char*))dlsym(RTLD_NEXT,"fopen");
    char cwd[512]; bool scr=false; if(active()&&!is_env()){ if(p[0]=='/') scr=!strncmp(p,"/tmp/vlog.",10); else scr=getcwd(cwd,sizeof cwd)&&!strncmp(cwd,"/tmp/vlog.",10); }
    if(!scr) return real(p,m);
    ksp(); if(kopt.open_fail&&choose(2,"open")==1){ Ev("ofail").s_("m",m); errno=EMFILE; return nullptr; }
    bool plus=strchr(m,'+')!=nullptr; int fl=m[0]=='r'?(plus?O_RDWR:O_RDONLY):(plus?O_RDWR:O_WRONLY)|O_CREAT|(m[0]=='a'?O_APPEND:O_TRUNC); int fd=syscall(SYS_open,p,fl|O_CLOEXEC,0644); if(fd<0) return nullptr;
    cookie_io_functions_t io; io.read=vf_read; io.write=vf_write; io.seek=vf_seek; io.close=vf_close; FILE* f=fopencookie(new VFile{fd},m,io); setvbuf(f,nullptr,_IOFBF,4096); return f;
}
FILE* fopen64(const char* p,const char* m){ return fopen(p,m); }
}
