// See vsched.h.  Compiled WITHOUT -fsanitize=thread.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "vsched.h"
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <signal.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <malloc.h>
#include <time.h>
#include <atomic>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <deque>
#include <memory>
#include <algorithm>
#include "vs_int.h"

namespace vs {

KernOpts kopt;
std::function<void(int,const char*)> on_fd_open, on_fd_close;
std::function<void(int,const char*,int,int)> on_net;
std::function<void()> on_poll, on_poll_block;

// ------------------------------------------------------------------ shared memory with the parent
static const size_t TRACE_CAP = 4u<<20, CHOICE_CAP = 400000;
struct Choice { uint16_t n, c; uint8_t kind; };
struct Shm {
    uint32_t trace_len; uint32_t nchoices; uint32_t ended; uint32_t steps;
    uint32_t cfg_len; uint32_t stderr_len;
    char cfg[16384];
    Choice ch[CHOICE_CAP];
    char trace[TRACE_CAP];
};
static Shm* shm;

// ------------------------------------------------------------------ run parameters
enum Mode { M_DFS, M_PCT, M_RAND, M_REPLAY };
struct RunP {
    Mode mode=M_DFS; uint64_t seed=1; uint64_t wseed=1;
    int bound=1, envbound=1, pct_d=2; int est_len=200; int env_p=10; /* 1/env_p */
    std::vector<uint16_t> prefix;            // DFS
    std::map<uint32_t,uint16_t> sparse;      // replay
    long max_steps=60000; int alarm_s=60, cpu_s=4;
} rp;
static std::map<std::string,std::string> params;
int param(const char* k,int d){ auto it=params.find(k); return it==params.end()?d:atoi(it->second.c_str()); }
std::string param_s(const char* k,const char* d){ auto it=params.find(k); return it==params.end()?d:it->second; }

struct Rng { uint64_t s; uint64_t next(){ s+=0x9E3779B97F4A7C15ull; uint64_t z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);} };
static Rng srng{1}, wrng{1};
uint64_t rnd(){ return wrng.next(); }
int rnd_int(int lo,int hi){ return lo+(int)(rnd()%(uint64_t)(hi-lo+1)); }

// ------------------------------------------------------------------ threads
struct Thr {
    int id; std::atomic<int> go{0}; enum St{RUN,BLK,DONE} st=RUN;
    std::function<bool()> pred; bool has_dl=false; int64_t dl=0; bool quiesce=false;
    bool detached=false, joined=false; bool env=false; int streak=0;
    pthread_t real; void*(*fn)(void*)=nullptr; void* arg=nullptr; void* ret=nullptr;
    const char* where="";
};
static std::vector<Thr*> thrs;
static __thread Thr* me = nullptr;
static bool g_active=false;
static int64_t g_now=1000000000ll;   // virtual ns since boot
static uint32_t g_step=0, g_choice=0;
static std::vector<uint32_t> g_change;      // PCT change points (step numbers)
static int g_in_runtime=0;

bool active(){ return g_active && me; }
int tid(){ return me?me->id:-1; }
static bool badns(const struct timespec* ts){ return ts->tv_nsec<0||ts->tv_nsec>=1000000000l; }   // the call is refused
int64_t now_ns(){ return g_now; }

static void futex_wait(std::atomic<int>* a,int v){ syscall(SYS_futex,(int*)a,FUTEX_WAIT_PRIVATE,v,nullptr,nullptr,0); }
static void futex_wake(std::atomic<int>* a){ syscall(SYS_futex,(int*)a,FUTEX_WAKE_PRIVATE,1,nullptr,nullptr,0); }

// ------------------------------------------------------------------ trace
void log_raw(const std::string& j){
    if(!shm) return;
    size_t n=j.size();
    if(shm->trace_len+n+2>TRACE_CAP) finish("trace_overflow");
    memcpy(shm->trace+shm->trace_len,j.data(),n); shm->trace[shm->trace_len+n]='\n';
    shm->trace_len+=n+1;
}
void set_cfg(const std::string& j){ if(j.size()<sizeof(shm->cfg)){ memcpy(shm->cfg,j.data(),j.size()); shm->cfg_len=j.size(); } }
static std::string esc(const std::string& s){ std::string o; for(unsigned char c: s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b;} else o+=c;} return o; }
Ev::Ev(const char* e){ s="{\"e\":\""; s+=e; s+="\",\"t\":"+std::to_string(vs::tid()); }
Ev& Ev::i(const char*k,long long v){ s+=",\""; s+=k; s+="\":"+std::to_string(v); return *this; }
Ev& Ev::s_(const char*k,const std::string&v){ s+=",\""; s+=k; s+="\":\""+esc(v)+"\""; return *this; }
Ev& Ev::b(const char*k,bool v){ s+=",\""; s+=k; s+=v?"\":true":"\":false"; return *this; }
Ev& Ev::li(const char*k,const std::vector<long long>&v){ s+=",\""; s+=k; s+="\":["; for(size_t i=0;i<v.size();i++){ if(i)s+=","; s+=std::to_string(v[i]); } s+="]"; return *this; }
Ev& Ev::raw(const char*k,const std::string&j){ s+=",\""; s+=k; s+="\":"+j; return *this; }
Ev::~Ev(){ s+="}"; log_raw(s); }

bool mem_ok();
void finish(const char* how){
    if(strcmp(how,"end")==0&&!mem_ok()) how="ub_write_after_free";
    if(strcmp(how,"end")!=0){
        std::string w;
        for(auto t: thrs) if(t->st==Thr::BLK){ if(!w.empty())w+=","; w+=std::to_string(t->id)+":"+t->where; }
        log_raw(std::string("{\"e\":\"")+how+"\",\"t\":"+std::to_string(tid())+",\"where\":\""+esc(w)+"\"}");
    }
    if(shm){ shm->steps=g_step; shm->ended=1; }
    _exit(0);
}

// ------------------------------------------------------------------ choices
static bool g_calm=false;
void calm(bool on){ g_calm=on; }
static int decide(int n,int kind){   // kind 0: preemption, 1: free switch, 2: environment, 3: clock
    if(n<=1||g_calm) return 0;
    uint32_t idx=g_choice++; int c=0;
    switch(rp.mode){
    case M_DFS: c = idx<rp.prefix.size()? rp.prefix[idx] : 0; break;
    case M_REPLAY: { auto it=rp.sparse.find(idx); c= it==rp.sparse.end()?0:it->second; break; }
    case M_PCT:
        if(kind==0){ if(std::binary_search(g_change.begin(),g_change.end(),g_step)) c=1+(int)(srng.next()%(n-1)); }
        else if(kind==1){ c = (srng.next()%3==0)? (int)(srng.next()%n):0; }
        else c = (srng.next()%rp.env_p==0)? 1+(int)(srng.next()%(n-1)):0;
        break;
    case M_RAND:
        if(kind==0){ c = (srng.next()%(uint64_t)rp.pct_d==0)? 1+(int)(srng.next()%(n-1)):0; }
        else if(kind==1) c=(int)(srng.next()%n);
        else c = (srng.next()%rp.env_p==0)? 1+(int)(srng.next()%(n-1)):0;
        break;
    }
    if(c>=n) c=n-1;
    if(idx<CHOICE_CAP){ shm->ch[idx].n=(uint16_t)n; shm->ch[idx].c=(uint16_t)c; shm->ch[idx].kind=(uint8_t)kind; shm->nchoices=idx+1; }
    return c;
}
int choose(int n,const char*){ if(!active()||me->env) return 0; return decide(n,2); }

// ------------------------------------------------------------------ scheduler
static bool enabled(Thr* t){
    if(t->st==Thr::DONE) return false;
    if(t->st==Thr::RUN) return true;
    if(t->quiesce) return false;
    if(t->pred && t->pred()) return true;
    return t->has_dl && g_now>=t->dl;
}
static bool min_deadline(int64_t& out){ bool f=false; for(auto t: thrs) if(t->st==Thr::BLK&&!t->quiesce&&t->has_dl){ if(!f||t->dl<out){out=t->dl;f=true;} } int64_t k; if(kern_next_deadline(k)){ if(!f||k<out){out=k;f=true;} } return f; }

static void switch_to(Thr* t){
    if(t==me) return;
    Thr* self=me;
    t->go.store(1); futex_wake(&t->go);
    if(self->st==Thr::DONE) return;
    while(self->go.exchange(0)==0) futex_wait(&self->go,0);
}

// no heap: a finished thread leaves resched after the next one has been woken
struct Opts { Thr* v[256]; size_t n=0; bool empty() const { return n==0; } size_t size() const { return n; } void push_back(Thr* t){ if(n<256) v[n++]=t; } void push_front(Thr* t){ if(n<256){ for(size_t i=n;i>0;i--) v[i]=v[i-1]; v[0]=t; n++; } } Thr* operator[](size_t i){ return v[i]; } };
// mode: 0 normal point, 1 yield, 2 the caller is blocked or finished
static void resched(int mode){
    if(++g_step>(uint32_t)rp.max_steps) finish("livelock");
    g_now += (mode==1)?2000:50;
    for(;;){
        Opts opts; bool selfen=false;
        if(mode!=2){ selfen=true; }
        else if(me->st!=Thr::DONE && enabled(me)) selfen=true;
        for(size_t k=1;k<=thrs.size();k++){ Thr* t=thrs[(me->id+k)%thrs.size()]; if(t!=me&&enabled(t)) opts.push_back(t); }
        if(opts.empty()&&!selfen){
            // quiescent waiters
            Thr* q=nullptr; for(auto t: thrs) if(t->st==Thr::BLK&&t->quiesce){ q=t; break; }
            if(q){ q->quiesce=false; q->st=Thr::RUN; me->streak=0; switch_to(q); return; }
            int64_t dl; if(min_deadline(dl)){ if(dl>g_now) g_now=dl; kern_tick(); continue; }
            finish("deadlock");
        }
        int64_t dl; bool clk = kopt.time_choice && !me->env && mode!=1 && min_deadline(dl) && dl>g_now;
        if(mode==0){
            if(opts.empty()){ if(clk){ if(decide(2,3)==1){ g_now=dl; kern_tick(); continue; } } me->streak=0; return; }
            if(++me->streak>400){ me->streak=0; Thr* t=opts[0]; switch_to(t); return; }   // fairness
            int n=1+(int)opts.size()+(clk?1:0);
            int c=decide(n,0);
            if(clk&&c==n-1){ g_now=dl; kern_tick(); continue; }
            if(c==0) return;
            me->streak=0; switch_to(opts[c-1]); return;
        } else if(mode==1){
            if(opts.empty()) { g_now+=1000000; kern_tick(); return; }
            int c=decide((int)opts.size(),1); me->streak=0; switch_to(opts[c]); return;
        } else {
            if(selfen) opts.push_front(me);
            int n=(int)opts.size()+(clk?1:0);
            int c=decide(n,1);
            if(clk&&c==n-1){ g_now=dl; kern_tick(); continue; }
            me->streak=0; switch_to(opts[c]); return;
        }
    }
}

void sp(){ if(!g_active||!me||me->env||g_in_runtime) return; resched(0); }
void sp_yield(){ if(!g_active||!me) return; resched(1); }
void point(){ sp(); }

// block until pred or deadline; returns true if pred holds
bool block(const std::function<bool()>& pred,bool has_dl,int64_t dl,const char* where){
    if(pred && pred()) return true;
    if(has_dl && g_now>=dl) return false;
    me->pred=pred; me->has_dl=has_dl; me->dl=dl; me->st=Thr::BLK; me->where=where;
    for(;;){
        resched(2);
        bool ok = pred && pred();
        if(ok || (has_dl && g_now>=dl)){ me->st=Thr::RUN; me->pred=nullptr; me->has_dl=false; me->where=""; return ok; }
    }
}
void block_until(const std::function<bool()>& p){ block(p,false,0,"env"); }
void settle(){ me->st=Thr::BLK; me->quiesce=true; me->where="settle"; resched(2); me->st=Thr::RUN; me->quiesce=false; me->where=""; }
void sleep_ms(int ms){ block(nullptr,true,g_now+(int64_t)ms*1000000,"sleep"); }
bool all_others_done(){ for(auto t: thrs) if(t!=me&&t->st!=Thr::DONE) return false; return true; }
void wait_others_done(){ Thr* self=me; block([self]{ for(auto t: thrs) if(t!=self&&t->st!=Thr::DONE) return false; return true; },false,0,"others"); }
int alive_threads(){ int n=0; for(auto t: thrs) if(t!=me&&t->st!=Thr::DONE) n++; return n; }
void as_env(bool on){ if(me) me->env=on; }
bool is_env(){ return me&&me->env; }
EnvScope::EnvScope(){ old=me?me->env:false; if(me) me->env=true; }
EnvScope::~EnvScope(){ if(me) me->env=old; }

static void* thr_main(void* p){
    Thr* t=(Thr*)p; me=t;
    while(t->go.exchange(0)==0) futex_wait(&t->go,0);
    t->ret=t->fn(t->arg);
    sp();
    t->st=Thr::DONE;
    resched(2);
    me=nullptr;
    return t->ret;
}

// ------------------------------------------------------------------ interposition helpers
template<class F> static F real(const char* n){ return (F)dlsym(RTLD_NEXT,n); }
#define REAL(ret,name,...) static ret(*r)(__VA_ARGS__)=nullptr; if(!r) r=real<ret(*)(__VA_ARGS__)>(#name)

struct Mtx { Thr* owner=nullptr; int cnt=0; int type=0; bool dead=false; };
static std::unordered_map<void*,Mtx> mtxs;
static Mtx& mtx(void* m,int kind){ auto it=mtxs.find(m); if(it==mtxs.end()){ Mtx x; x.type=kind&3; it=mtxs.emplace(m,x).first; } return it->second; }
struct Cnd { std::deque<Thr*> q; std::set<Thr*> signaled; bool dead=false; };
static std::unordered_map<void*,Cnd> cnds;
static void ub(const char* what){ finish((std::string("ub_")+what).c_str()); }

static void m_acquire(void* m,Mtx& x,bool& ok,bool has_dl,int64_t dl){
    if(x.dead) ub("lock_destroyed_mutex");
    if(x.owner==me && x.type==PTHREAD_MUTEX_RECURSIVE){ x.cnt++; ok=true; return; }
    Mtx* px=&x;
    ok=block([px]{return px->owner==nullptr;},has_dl,dl,"mutex");
    if(ok){ if(mtxs[m].dead) ub("lock_destroyed_mutex"); x.owner=me; x.cnt=1; }
}
} // namespace vs
using namespace vs;
static int64_t abs_real(const struct timespec* ts){ return (int64_t)ts->tv_sec*1000000000ll+ts->tv_nsec - REALTIME_BASE; }

extern "C" {
int pthread_mutex_init(pthread_mutex_t* m,const pthread_mutexattr_t* a){
    REAL(int,pthread_mutex_init,pthread_mutex_t*,const pthread_mutexattr_t*);
    int rc=r(m,a);
    if(active()){ Mtx x; x.type=m->__data.__kind&3; mtxs[m]=x; }
    return rc;
}
int pthread_mutex_destroy(pthread_mutex_t* m){
    if(active()){ auto it=mtxs.find(m); if(it!=mtxs.end()){ if(it->second.owner) ub("destroy_locked_mutex"); it->second.dead=true; } else { Mtx x; x.dead=true; mtxs[m]=x; } return 0; }
    REAL(int,pthread_mutex_destroy,pthread_mutex_t*); return r(m);
}
int pthread_mutex_lock(pthread_mutex_t* m){
    if(active()){ sp(); bool ok; m_acquire(m,mtx(m,m->__data.__kind),ok,false,0); return 0; }
    REAL(int,pthread_mutex_lock,pthread_mutex_t*); return r(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m){
    if(active()){ sp(); Mtx& x=mtx(m,m->__data.__kind); if(x.dead) ub("lock_destroyed_mutex");
        if(x.owner==nullptr){x.owner=me;x.cnt=1;return 0;} if(x.owner==me&&x.type==PTHREAD_MUTEX_RECURSIVE){x.cnt++;return 0;} return EBUSY; }
    REAL(int,pthread_mutex_trylock,pthread_mutex_t*); return r(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m,const struct timespec* ts){
    if(active()){ sp(); bool ok; m_acquire(m,mtx(m,m->__data.__kind),ok,true,badns(ts)?0:abs_real(ts)); return ok?0:badns(ts)?EINVAL:ETIMEDOUT; }
    REAL(int,pthread_mutex_timedlock,pthread_mutex_t*,const struct timespec*); return r(m,ts);
}
int pthread_mutex_clocklock(pthread_mutex_t* m,clockid_t c,const struct timespec* ts){
    if(active()){ sp(); bool ok; int64_t dl=(int64_t)ts->tv_sec*1000000000ll+ts->tv_nsec; if(c==CLOCK_REALTIME) dl-=REALTIME_BASE; m_acquire(m,mtx(m,m->__data.__kind),ok,true,badns(ts)?0:dl); return ok?0:badns(ts)?EINVAL:ETIMEDOUT; }
    REAL(int,pthread_mutex_clocklock,pthread_mutex_t*,clockid_t,const struct timespec*); return r(m,c,ts);
}
int pthread_mutex_unlock(pthread_mutex_t* m){
    if(active()){ Mtx& x=mtx(m,m->__data.__kind); if(x.dead) ub("unlock_destroyed_mutex"); if(x.owner==me){ if(--x.cnt==0) x.owner=nullptr; } else { if(x.owner==nullptr) return 0; x.owner=nullptr; } sp(); return 0; }
    REAL(int,pthread_mutex_unlock,pthread_mutex_t*); return r(m);
}
int pthread_cond_init(pthread_cond_t* c,const pthread_condattr_t* a){
    REAL(int,pthread_cond_init,pthread_cond_t*,const pthread_condattr_t*); int rc=r(c,a);
    if(active()) cnds[c]=Cnd(); return rc;
}
int pthread_cond_destroy(pthread_cond_t* c){
    if(active()){ cnds[c].dead=true; return 0; }
    REAL(int,pthread_cond_destroy,pthread_cond_t*); return r(c);
}
static int cwait(pthread_cond_t* c,pthread_mutex_t* m,bool has,int64_t dl){
    Cnd& q=cnds[c]; if(q.dead) ub("wait_destroyed_cond");
    sp();
    Mtx& x=mtx(m,m->__data.__kind); x.owner=nullptr; x.cnt=0;
    Thr* self=me; Cnd* pq=&q; q.q.push_back(self);
    bool got=block([pq,self]{return pq->signaled.count(self)>0;},has,dl,"cond");
    q.signaled.erase(self);
    for(auto it=q.q.begin();it!=q.q.end();++it) if(*it==self){ q.q.erase(it); break; }
    bool ok; m_acquire(m,x,ok,false,0);
    return got?0:ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){
    if(active()) return cwait(c,m,false,0);
    REAL(int,pthread_cond_wait,pthread_cond_t*,pthread_mutex_t*); return r(c,m);
}
int pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const struct timespec* ts){
    if(active()) return badns(ts)?EINVAL:cwait(c,m,true,abs_real(ts));
    REAL(int,pthread_cond_timedwait,pthread_cond_t*,pthread_mutex_t*,const struct timespec*); return r(c,m,ts);
}
int pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t ck,const struct timespec* ts){
    if(active()){ if(badns(ts)) return EINVAL; int64_t dl=(int64_t)ts->tv_sec*1000000000ll+ts->tv_nsec; if(ck==CLOCK_REALTIME) dl-=REALTIME_BASE; return cwait(c,m,true,dl); }
    REAL(int,pthread_cond_clockwait,pthread_cond_t*,pthread_mutex_t*,clockid_t,const struct timespec*); return r(c,m,ck,ts);
}
int pthread_cond_signal(pthread_cond_t* c){
    if(active()){ sp(); Cnd& q=cnds[c]; if(q.dead) ub("signal_destroyed_cond");
        std::vector<Thr*> w; for(auto t: q.q) if(!q.signaled.count(t)) w.push_back(t);
        if(!w.empty()){ int k=w.size()>1?decide((int)w.size(),2):0; q.signaled.insert(w[k]); } return 0; }
    REAL(int,pthread_cond_signal,pthread_cond_t*); return r(c);
}
int pthread_cond_broadcast(pthread_cond_t* c){
    if(active()){ sp(); Cnd& q=cnds[c]; if(q.dead) ub("signal_destroyed_cond"); for(auto t: q.q) q.signaled.insert(t); return 0; }
    REAL(int,pthread_cond_broadcast,pthread_cond_t*); return r(c);
}
int pthread_create(pthread_t* th,const pthread_attr_t* a,void*(*fn)(void*),void* arg){
    REAL(int,pthread_create,pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
    if(!active()) return r(th,a,fn,arg);
    Thr* t=new Thr; t->id=(int)thrs.size(); t->fn=fn; t->arg=arg; t->env=false;
    if(a){ int ds=0; pthread_attr_getdetachstate(a,&ds); if(ds==PTHREAD_CREATE_DETACHED) t->detached=true; }
    thrs.push_back(t);
    int rc=r(&t->real,a,thr_main,t);
    if(rc){ thrs.pop_back(); return rc; }
    *th=t->real;
    sp();
    return 0;
}
int pthread_join(pthread_t th,void** ret){
    REAL(int,pthread_join,pthread_t,void**);
    if(!active()) return r(th,ret);
    sp();
    for(auto t: thrs) if(t->id!=0&&pthread_equal(t->real,th)&&!t->joined&&!t->detached){
        if(t==me) return EDEADLK;
        block([t]{return t->st==Thr::DONE;},false,0,"join");
        t->joined=true; return r(th,ret);
    }
    return ESRCH;
}
int pthread_detach(pthread_t th){
    REAL(int,pthread_detach,pthread_t);
    if(active()){ for(auto t: thrs) if(t->id!=0&&pthread_equal(t->real,th)&&!t->joined) t->detached=true; sp(); }
    return r(th);
}
int sched_yield(void){ if(active()){ sp_yield(); return 0; } return syscall(SYS_sched_yield); }
int nanosleep(const struct timespec* rq,struct timespec* rm){
    if(active()){ if(badns(rq)||rq->tv_sec<0){ errno=EINVAL; return -1; } block(nullptr,true,g_now+(int64_t)rq->tv_sec*1000000000ll+rq->tv_nsec,"sleep"); if(rm){rm->tv_sec=0;rm->tv_nsec=0;} return 0; }
    REAL(int,nanosleep,const struct timespec*,struct timespec*); return r(rq,rm);
}
int clock_nanosleep(clockid_t c,int fl,const struct timespec* rq,struct timespec* rm){
    if(active()){ if(badns(rq)||rq->tv_sec<0) return EINVAL; int64_t d=(int64_t)rq->tv_sec*1000000000ll+rq->tv_nsec; if(fl&TIMER_ABSTIME){ if(c==CLOCK_REALTIME) d-=REALTIME_BASE; } else d+=g_now; block(nullptr,true,d,"sleep"); return 0; }
    REAL(int,clock_nanosleep,clockid_t,int,const struct timespec*,struct timespec*); return r(c,fl,rq,rm);
}
int usleep(useconds_t us){ struct timespec t={(time_t)(us/1000000),(long)(us%1000000)*1000}; return nanosleep(&t,0); }
unsigned sleep(unsigned s){ struct timespec t={(time_t)s,0}; nanosleep(&t,0); return 0; }
// with clock_points the reader may be off the processor for a while right before or after it reads the clock
static void off_cpu(){ if(!kopt.clock_points||me->env) return; sp(); int x=choose(6,"late"); if(x==1) block(nullptr,true,g_now+3000,"late"); else if(x==2) block(nullptr,true,g_now+1500000,"late"); }
static void tick_clock(){ off_cpu(); g_now+=20; if(kopt.round_clock) g_now=(g_now+999999)/1000000*1000000; }
int clock_gettime(clockid_t c,struct timespec* ts){
    if(active()){ tick_clock(); int64_t n=g_now; off_cpu(); if(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE) n+=REALTIME_BASE; ts->tv_sec=n/1000000000ll; ts->tv_nsec=n%1000000000ll; return 0; }
    return syscall(SYS_clock_gettime,c,ts);
}
int gettimeofday(struct timeval* tv,void*){
    if(active()){ tick_clock(); int64_t n=g_now+REALTIME_BASE; off_cpu(); tv->tv_sec=n/1000000000ll; tv->tv_usec=(n%1000000000ll)/1000; return 0; }
    return syscall(SYS_gettimeofday,tv,0);
}
time_t time(time_t* t){ time_t v; if(active()){ off_cpu(); v=(g_now+REALTIME_BASE)/1000000000ll; off_cpu(); } else { struct timespec ts; syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); v=ts.tv_sec; } if(t)*t=v; return v; }

// static-local guards and call_once, scheduler aware
int __cxa_guard_acquire(uint64_t* g){
    volatile unsigned char* b=(volatile unsigned char*)g;
    if(b[0]) return 0;
    if(active()){ sp(); block([b]{return b[0]||!b[1];},false,0,"guard"); if(b[0]) return 0; b[1]=1; return 1; }
    b[1]=1; return 1;
}
void __cxa_guard_release(uint64_t* g){ volatile unsigned char* b=(volatile unsigned char*)g; b[1]=0; b[0]=1; }
void __cxa_guard_abort(uint64_t* g){ volatile unsigned char* b=(volatile unsigned char*)g; b[1]=0; }
int pthread_once(pthread_once_t* o,void(*fn)(void)){
    REAL(int,pthread_once,pthread_once_t*,void(*)(void));
    if(!active()) return r(o,fn);
    int* p=(int*)o; sp();
    block([p]{return *p!=0x100;},false,0,"once");
    if(*p==2) return 0;
    *p=0x100; fn(); *p=2; return 0;
}

// memory checking: fresh memory is filled, freed memory is poisoned and quarantined, and every block
// carries a trailer whose damage (a heap overflow) is reported when the block is freed or the run ends.
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_memalign(size_t,size_t);
// While lib_track is on, blocks asked for by functions of namespace cyclone (the innermost function on
// the stack that is neither of the standard library nor unknown) are counted until they are freed.
struct Hdr { Hdr* nx; Hdr* pv; const char* who; uint64_t spare; uint64_t size; uint64_t magic; };
static const uint64_t HL=0x1eaf1eaf1eaf1eafull; static Hdr* libs=nullptr; static long nlibs=0; static bool g_track=false; static const char* whoasks();
static const uint64_t HM=0x5ca1ab1e0ddba11full, HD=0xdeadbeefcafef00dull, TR=0xA5C3A5C3A5C3A5C3ull;
static const int QN=2048; static void* quarantine[QN]; static size_t qsize[QN]; static size_t qbytes=0; static int qpos=0;
static void trailer_set(Hdr* h){ memcpy((char*)(h+1)+h->size,&TR,8); }
static bool trailer_ok(Hdr* h){ return memcmp((char*)(h+1)+h->size,&TR,8)==0; }
void* malloc(size_t n){
    if(n>(1ull<<40)){ errno=ENOMEM; return nullptr; }
    Hdr* h=(Hdr*)__libc_malloc(n+sizeof(Hdr)+8); if(!h) return nullptr;
    h->size=n; h->magic=HM; trailer_set(h);
    if(__builtin_expect(g_track,0)) if(const char* w=whoasks()){ h->magic=HL; h->who=w; h->pv=nullptr; h->nx=libs; if(libs) libs->pv=h; libs=h; nlibs++; }
    if(g_active&&n<=(1u<<18)) memset(h+1,0xFD,n);
    return h+1;
}
void* calloc(size_t a,size_t b){ if(b&&a>(1ull<<40)/b){ errno=ENOMEM; return nullptr; } void* p=malloc(a*b); if(p) memset(p,0,a*b); return p; }
void* memalign(size_t al,size_t n){ return al<=16?malloc(n):__libc_memalign(al,n); }
void* aligned_alloc(size_t al,size_t n){ return memalign(al,n); }
int posix_memalign(void** p,size_t al,size_t n){ void* q=memalign(al,n); if(!q) return ENOMEM; *p=q; return 0; }
void free(void* p){
    if(!p) return;
    Hdr* h=(Hdr*)p-1;
    if(h->magic==HD&&g_active) vs::finish("ub_double_free");
    if(h->magic==HL){ if(h->pv) h->pv->nx=h->nx; else libs=h->nx; if(h->nx) h->nx->pv=h->pv; nlibs--; h->magic=HM; }
    if(h->magic!=HM){ __libc_free(p); return; }
    if(!trailer_ok(h)&&g_active) vs::finish("ub_heap_overflow");
    if(g_active&&h->size<=(1u<<18)){
        memset(p,0xFE,h->size); h->magic=HD;
        void* old=quarantine[qpos]; size_t os=qsize[qpos];
        quarantine[qpos]=h; qsize[qpos]=h->size; qbytes+=h->size; qpos=(qpos+1)%QN;
        if(old){ Hdr* o=(Hdr*)old; qbytes-=os; o->magic=0; __libc_free(o); }
        return;
    }
    h->magic=0; __libc_free(h);
}
void* realloc(void* p,size_t n){
    if(!p) return malloc(n);
    Hdr* h=(Hdr*)p-1; size_t old= h->magic==HM||h->magic==HL?h->size:malloc_usable_size(p);
    void* q=malloc(n); if(!q) return nullptr; memcpy(q,p,old<n?old:n); free(p); return q;
}
}
namespace vs { // called when an execution ends normally: writes to freed memory, overflow of quarantined blocks
bool mem_ok(){
    for(int i=0;i<QN;i++) if(quarantine[i]){ Hdr* h=(Hdr*)quarantine[i]; unsigned char* p=(unsigned char*)(h+1); if(h->magic!=HD||!trailer_ok(h)) return false; for(size_t k=0;k<h->size;k++) if(p[k]!=0xFE) return false; }
    return true;
}
}

// ------------------------------------------------------------------ who allocates
#include <fcntl.h>
#include <elf.h>
#include <link.h>
#include <unwind.h>
namespace {
struct Sym { uintptr_t lo,hi; const char* name; int kind; }; // kind: 0 skip, 1 library, 2 harness
static std::vector<Sym>* symtab=nullptr; static bool g_in_who=false;
static int kind_of(const char* n){
    if(!strncmp(n,"_ZN7cyclone",11)||!strncmp(n,"_ZNK7cyclone",12)||!strncmp(n,"_ZZN7cyclone",12)||!strncmp(n,"_ZZNK7cyclone",13)||!strncmp(n,"_ZThn",5)) return 1;
    if(!strncmp(n,"_ZNSt",5)||!strncmp(n,"_ZNKSt",6)||!strncmp(n,"_ZSt",4)||!strncmp(n,"_ZN9__gnu_cxx",13)||!strncmp(n,"_ZNK9__gnu_cxx",14)||!strncmp(n,"_Zn",3)||!strcmp(n,"malloc")||!strcmp(n,"calloc")||!strcmp(n,"realloc")||!strcmp(n,"memalign")||!strcmp(n,"posix_memalign")||!strcmp(n,"aligned_alloc")) return 0;
    return 2;
}
static void load_syms(){
    symtab=new std::vector<Sym>(); int fd=(int)syscall(SYS_open,"/proc/self/exe",O_RDONLY,0); if(fd<0) return; off_t sz=syscall(SYS_lseek,fd,0,SEEK_END); char* m=(char*)mmap(0,sz,PROT_READ,MAP_PRIVATE,fd,0); syscall(SYS_close,fd); if(m==MAP_FAILED) return;
    Elf64_Ehdr* e=(Elf64_Ehdr*)m; Elf64_Shdr* sh=(Elf64_Shdr*)(m+e->e_shoff); uintptr_t bias=0; if(e->e_type==ET_DYN) bias=_r_debug.r_map->l_addr;
    for(int i=0;i<e->e_shnum;i++) if(sh[i].sh_type==SHT_SYMTAB){ Elf64_Sym* s=(Elf64_Sym*)(m+sh[i].sh_offset); const char* st=m+sh[sh[i].sh_link].sh_offset;
        for(size_t k=0;k<sh[i].sh_size/sizeof(*s);k++) if(ELF64_ST_TYPE(s[k].st_info)==STT_FUNC&&s[k].st_size) symtab->push_back({bias+s[k].st_value,bias+s[k].st_value+s[k].st_size,st+s[k].st_name,kind_of(st+s[k].st_name)}); }
    std::sort(symtab->begin(),symtab->end(),[](const Sym&a,const Sym&b){return a.lo<b.lo;});
}
static const Sym* sym_at(uintptr_t pc){ size_t lo=0,hi=symtab->size(); while(lo<hi){ size_t m=(lo+hi)/2; if((*symtab)[m].lo<=pc) lo=m+1; else hi=m; } if(!lo) return nullptr; const Sym* s=&(*symtab)[lo-1]; return pc<s->hi?s:nullptr; }
struct Walk { const char* r; int n; };
static _Unwind_Reason_Code step_(struct _Unwind_Context* c,void* a){ Walk* w=(Walk*)a; uintptr_t pc=_Unwind_GetIP(c); if(!pc||++w->n>60) return _URC_END_OF_STACK; const Sym* s=sym_at(pc-1); if(!s||s->kind==0) return _URC_NO_REASON; if(s->kind==1) w->r=s->name; return _URC_END_OF_STACK; }
}
static const char* whoasks(){
    if(g_in_who||!g_active||!me||me->env) return nullptr;
    g_in_who=true; Thr* self=me; me=nullptr; Walk w={nullptr,0}; _Unwind_Backtrace(step_,&w); me=self; g_in_who=false; return w.r;
}
namespace vs {
void lib_track(bool on){ if(!symtab) load_syms(); g_track=on; }
// a block is lost when no object of the program's static or thread-local storage leads to it
static std::vector<Hdr*> lib_lost(){
    g_in_who=true; std::vector<Hdr*> all; for(Hdr* h=libs;h;h=h->nx) all.push_back(h);
    std::sort(all.begin(),all.end()); std::vector<char> seen(all.size(),0); std::vector<size_t> todo;
    auto scan=[&](const char* lo,const char* hi){
        for(lo=(const char*)(((uintptr_t)lo+7)&~(uintptr_t)7);lo+8<=hi;lo+=8){ uintptr_t v; memcpy(&v,lo,8);
            size_t a=0,b=all.size(); while(a<b){ size_t m=(a+b)/2; if((uintptr_t)(all[m]+1)<=v) a=m+1; else b=m; }
            if(!a||seen[a-1]||v>(uintptr_t)(all[a-1]+1)+all[a-1]->size) continue;
            seen[a-1]=1; todo.push_back(a-1); }
    };
    struct Reg { const char* lo; const char* hi; }; std::vector<Reg> regs;
    
    dl_iterate_phdr([](struct dl_phdr_info* i,size_t,void* a)->int{ auto* c=(std::vector<Reg>*)a;
        for(int k=0;k<i->dlpi_phnum;k++){ auto& p=i->dlpi_phdr[k];
            if(p.p_type==PT_LOAD&&(p.p_flags&PF_W)) c->push_back({(const char*)i->dlpi_addr+p.p_vaddr,(const char*)i->dlpi_addr+p.p_vaddr+p.p_memsz});
            if(p.p_type==PT_TLS&&i->dlpi_tls_data) c->push_back({(const char*)i->dlpi_tls_data,(const char*)i->dlpi_tls_data+p.p_memsz}); }
        return 0; },&regs);
    for(auto& r: regs) scan(r.lo,r.hi);
    while(!todo.empty()){ Hdr* h=all[todo.back()]; todo.pop_back(); scan((char*)(h+1),(char*)(h+1)+h->size); }
    std::vector<Hdr*> o; for(size_t i=0;i<all.size();i++) if(!seen[i]) o.push_back(all[i]);
    g_in_who=false; return o;
}
long lib_live(){ return (long)lib_lost().size(); }
std::string lib_owners(int most){ std::string o="["; int n=0; for(Hdr* h: lib_lost()) if(n<most){ if(n++) o+=","; o+="\""+std::string(h->who)+"\""; } return o+"]"; }
}

// ------------------------------------------------------------------ tsan ABI
static inline bool skip_pc(void* pc){
    static std::unordered_map<void*,bool>* cache=nullptr;
    if(!cache) cache=new std::unordered_map<void*,bool>();
    auto it=cache->find(pc); if(it!=cache->end()) return it->second;
    Dl_info di; bool sk=false;
    if(dladdr(pc,&di)&&di.dli_sname){ const char* n=di.dli_sname;
        sk = strstr(n,"_Sp_counted")||strstr(n,"__shared_count")||strstr(n,"__weak_count")||strstr(n,"__exchange_and_add")||strstr(n,"__atomic_add")||strstr(n,"__cxa_guard"); }
    (*cache)[pc]=sk; return sk;
}
// plain memory accesses count only in the library's or a sample's own code: shared templates also run inside the runtime
static inline bool lib_pc(void* pc){
    static std::unordered_map<void*,bool>* cache=nullptr;
    if(!cache) cache=new std::unordered_map<void*,bool>();
    auto it=cache->find(pc); if(it!=cache->end()) return it->second;
    Dl_info di; bool ok=dladdr(pc,&di)&&di.dli_sname&&(strstr(di.dli_sname,"cyclone")||strstr(di.dli_sname,"app_"));
    (*cache)[pc]=ok; return ok;
}
static inline void ap(void* pc){ if(g_active&&me&&!me->env&&!g_in_runtime){ if(!skip_pc(pc)) resched(0); } }
static __thread char* stk_lo=nullptr; static __thread char* stk_hi=nullptr;
static void mp_(void* a,void* pc){
    if(!lib_pc(pc)) return;
    if(!stk_lo){ char* here=(char*)__builtin_frame_address(0); stk_hi=here+(1<<20); stk_lo=here-(4<<20); }
    if((char*)a>=stk_lo&&(char*)a<stk_hi) return;
    resched(0);
}
static inline __attribute__((always_inline)) void mp(void* a){ if(__builtin_expect(g_active&&kopt.mem_points,0)&&me&&!me->env&&!g_in_runtime) mp_(a,__builtin_return_address(0)); }
static inline bool weakfail(){ return g_active&&kopt.weak_cas_fail&&me&&!me->env&&!g_in_runtime&&decide(2,2)==1; }
extern "C" {
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW(n) void __tsan_read##n(void*a){mp(a);} void __tsan_write##n(void*a){mp(a);} void __tsan_unaligned_read##n(void*a){mp(a);} void __tsan_unaligned_write##n(void*a){mp(a);} void __tsan_read_write##n(void*a){mp(a);} void __tsan_volatile_read##n(void*a){mp(a);} void __tsan_volatile_write##n(void*a){mp(a);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*a,size_t){mp(a);} void __tsan_write_range(void*a,size_t){mp(a);}
void __tsan_vptr_update(void**,void*){} void __tsan_vptr_read(void**){}
#define PC __builtin_return_address(0)
#define AT(bits,T) \
T __tsan_atomic##bits##_load(const volatile T* a,int){ ap(PC); return __atomic_load_n(a,__ATOMIC_SEQ_CST);} \
void __tsan_atomic##bits##_store(volatile T* a,T v,int){ ap(PC); __atomic_store_n(a,v,__ATOMIC_SEQ_CST);} \
T __tsan_atomic##bits##_exchange(volatile T* a,T v,int){ ap(PC); return __atomic_exchange_n(a,v,__ATOMIC_SEQ_CST);} \
T __tsan_atomic##bits##_fetch_add(volatile T* a,T v,int){ ap(PC); return __atomic_fetch_add(a,v,__ATOMIC_SEQ_CST);} \
T __tsan_atomic##bits##_fetch_sub(volatile T* a,T v,int){ ap(PC); return __atomic_fetch_sub(a,v,__ATOMIC_SEQ_CST);} \
T __tsan_atomic##bits##_fetch_and(volatile T* a,T v,int){ ap(PC); return __atomic_fetch_and(a,v,__ATOMIC_SEQ_CST);} \
T __tsan_atomic##bits##_fetch_or(volatile T* a,T v,int){ ap(PC); return __atomic_fetch_or(a,v,__ATOMIC_SEQ_CST);} \
T __tsan_atomic##bits##_fetch_xor(volatile T* a,T v,int){ ap(PC); return __atomic_fetch_xor(a,v,__ATOMIC_SEQ_CST);} \
T __tsan_atomic##bits##_fetch_nand(volatile T* a,T v,int){ ap(PC); return __atomic_fetch_nand(a,v,__ATOMIC_SEQ_CST);} \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a,T* e,T d,int,int){ ap(PC); return __atomic_compare_exchange_n(a,e,d,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);} \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a,T* e,T d,int,int){ ap(PC); if(weakfail()){ *e=__atomic_load_n(a,__ATOMIC_SEQ_CST); return 0; } return __atomic_compare_exchange_n(a,e,d,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);} \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a,T e,T d,int,int){ ap(PC); __atomic_compare_exchange_n(a,&e,d,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return e;}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int){ } void __tsan_atomic_signal_fence(int){}
}

// ------------------------------------------------------------------ runner
namespace vs {
static std::map<std::string,scenario_fn>& regs(){ static std::map<std::string,scenario_fn> r; return r; }
Reg::Reg(const char* n,scenario_fn f){ regs()[n]=f; }

// what is left of the library's memory, descriptors and threads when a scenario has given everything back
static void ledger(){
    settle(); lib_track(false); Ev("ledger").i("live",lib_live()).raw("of",lib_owners(8)).i("threads",alive_threads()).i("fds",open_fds());
}
static void child_body(scenario_fn fn){
    { struct itimerval it; memset(&it,0,sizeof it); it.it_value.tv_sec=rp.cpu_s; setitimer(ITIMER_PROF,&it,nullptr); } alarm(rp.alarm_s);
    int devnull=syscall(SYS_open,"/dev/null",1,0);
    if(devnull>=0&&!getenv("VS_STDERR")){ syscall(SYS_dup2,devnull,1); syscall(SYS_dup2,devnull,2); }
    srng.s=rp.seed*0x9E3779B97F4A7C15ull+77; wrng.s=rp.wseed*0xD1342543DE82EF95ull+13;
    if(rp.mode==M_PCT){ int d=1+(int)(srng.next()%(uint64_t)rp.pct_d); for(int i=0;i<d;i++) g_change.push_back(1+(uint32_t)(srng.next()%(uint64_t)std::max(rp.est_len,2))); std::sort(g_change.begin(),g_change.end()); }
    Thr* t=new Thr; t->id=0; t->st=Thr::RUN; t->real=pthread_self(); thrs.push_back(t); me=t;
    g_active=true; bool leak=param("leak",0); if(leak) lib_track(true);
    if(params.count("mem")) kopt.mem_points=(int)param("mem",0);
    fn();
    if(leak) ledger();
    finish("end");
}

struct Out { std::string trace; };
static int run_one(scenario_fn fn,std::string& trace,std::string& cfg){
    shm->trace_len=shm->nchoices=shm->ended=shm->cfg_len=0; shm->steps=0;
    pid_t p=fork();
    if(p==0) child_body(fn);
    int st=0; while(waitpid(p,&st,0)<0&&errno==EINTR);
    trace.assign(shm->trace,shm->trace_len); cfg.assign(shm->cfg,shm->cfg_len);
    if(!shm->ended){
        int sig=WIFSIGNALED(st)?WTERMSIG(st):0;
        if(sig==SIGALRM||sig==SIGPROF) trace+="{\"e\":\"hang\",\"t\":-1}\n";
        else if(sig==SIGPIPE) trace+="{\"e\":\"killed_sigpipe\",\"t\":-1}\n";
        else trace+="{\"e\":\"crash\",\"t\":-1,\"sig\":"+std::to_string(sig)+"}\n";
    }
    return 0;
}

int run_main(int argc,char** argv){
    std::string scen,outf,mode="dfs",choices; long max_execs=1000000; double tmax=1e9; int nworkloads=1; uint64_t seed=1,wbase=1; bool verbose=false;
    for(int i=1;i<argc;i++){ std::string a=argv[i];
        auto val=[&]{ return std::string(argv[++i]); };
        if(a=="--scenario") scen=val(); else if(a=="--mode") mode=val(); else if(a=="--bound") rp.bound=atoi(val().c_str());
        else if(a=="--envbound") rp.envbound=atoi(val().c_str());
        else if(a=="--max") max_execs=atol(val().c_str()); else if(a=="--time") tmax=atof(val().c_str());
        else if(a=="--seed") seed=strtoull(val().c_str(),0,10); else if(a=="--out") outf=val(); else if(a=="--d") rp.pct_d=atoi(val().c_str());
        else if(a=="--workloads") nworkloads=atoi(val().c_str()); else if(a=="--wbase") wbase=strtoull(val().c_str(),0,10);
        else if(a=="--envp") rp.env_p=atoi(val().c_str()); else if(a=="--steps") rp.max_steps=atol(val().c_str());
        else if(a=="--choices") choices=val(); else if(a=="-v") verbose=true;
        else { auto e=a.find('='); if(e!=std::string::npos) params[a.substr(0,e)]=a.substr(e+1); }
    }
    if(scen.empty()){ for(auto&r: regs()) printf("%s\n",r.first.c_str()); return 0; }
    auto it=regs().find(scen); if(it==regs().end()){ fprintf(stderr,"no scenario %s\n",scen.c_str()); return 2; }
    scenario_fn fn=it->second; if(params.count("leak")) { lib_track(true); lib_track(false); }
    shm=(Shm*)mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    FILE* fo=outf.empty()?stdout:fopen(outf.c_str(),"w");
    std::unordered_set<std::string> seen; long execs=0; unsigned long long steps=0; long uniq=0; int hangs=0;
    struct timespec t0; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&t0);
    auto elapsed=[&]{ struct timespec t; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&t); return (t.tv_sec-t0.tv_sec)+(t.tv_nsec-t0.tv_nsec)*1e-9; };
    bool complete=true; unsigned long long written=0; const size_t line_max=600000; const unsigned long long out_max=250000000;
    auto emit=[&](const std::string& tr,const std::string& cfg){
        execs++; steps+=shm->steps;
        if(tr.find("\"e\":\"hang\"")!=std::string::npos&&++hangs>=3) max_execs=execs; // each costs seconds: three are enough to judge
        if(!seen.insert(cfg+"\n"+tr).second) return;
        uniq++;
        std::string ev; size_t p=0; while(p<tr.size()){ size_t q=tr.find('\n',p); if(!ev.empty()) ev+=","; ev+=tr.substr(p,q-p); p=q+1;
            if(ev.size()>line_max&&p<tr.size()){ // the beginning of a recording is a recording; how it ended matters where it ended badly
                size_t b=tr.rfind('\n',tr.size()-2); std::string last=b==std::string::npos?"":tr.substr(b+1,tr.size()-2-b);
                for(const char* x: {"hang","livelock","crash"}) if(last.find("\"e\":\""+std::string(x)+"\"")!=std::string::npos){ ev+=","+last; break; }
                break; } }
        written+=ev.size(); if(written>out_max) max_execs=execs;
        std::string sp_; for(uint32_t i=0;i<shm->nchoices;i++) if(shm->ch[i].c){ if(!sp_.empty()) sp_+=","; sp_+=std::to_string(i)+":"+std::to_string(shm->ch[i].c); }
        std::string ps; for(auto&kv: params){ ps+=" "+kv.first+"="+kv.second; }
        fprintf(fo,"{\"s\":\"%s\",\"cfg\":%s,\"wseed\":%llu,\"rp\":\"--scenario %s --mode replay --wbase %llu --choices '%s'%s\",\"ev\":[%s]}\n",scen.c_str(),cfg.empty()?"{}":cfg.c_str(),(unsigned long long)rp.wseed,scen.c_str(),(unsigned long long)rp.wseed,sp_.c_str(),ps.c_str(),ev.c_str());
    };
    std::string tr,cfg;
    for(int w=0; w<nworkloads && execs<max_execs && elapsed()<tmax; w++){
        rp.wseed=wbase+w;
        long wl_max=(max_execs-execs)/(nworkloads-w); if(wl_max<1) wl_max=1; long wl0=execs; double wt0=elapsed(), wt=(tmax-wt0)/(nworkloads-w);
        if(mode=="replay"){
            rp.mode=M_REPLAY; size_t p=0; while(p<choices.size()){ size_t q=choices.find(',',p); if(q==std::string::npos)q=choices.size(); std::string x=choices.substr(p,q-p); auto c=x.find(':'); rp.sparse[atoi(x.c_str())]=atoi(x.substr(c+1).c_str()); p=q+1; }
            run_one(fn,tr,cfg); emit(tr,cfg);
            if(verbose){ fputs(tr.c_str(),stderr); }
        } else if(mode=="dfs"){
            rp.mode=M_DFS; rp.prefix.clear(); bool done=false;
            while(!done){
                if(execs>=max_execs||execs-wl0>=wl_max||elapsed()-wt0>wt){ complete=false; break; }
                run_one(fn,tr,cfg); emit(tr,cfg);
                uint32_t n=shm->nchoices; std::vector<Choice> ch(shm->ch,shm->ch+n);
                std::vector<int> cs(n+1,0), ce(n+1,0);
                for(uint32_t i=0;i<n;i++){ cs[i+1]=cs[i]+((ch[i].kind!=2&&ch[i].c)?1:0); ce[i+1]=ce[i]+((ch[i].kind==2&&ch[i].c)?1:0); }
                done=true;
                for(int i=(int)n-1;i>=0;i--){
                    if(ch[i].c+1<ch[i].n){
                        bool env=ch[i].kind==2; int a=cs[i]+(env?0:1), b=ce[i]+(env?1:0);
                        if(a<=rp.bound&&b<=rp.envbound){ rp.prefix.resize(i+1); for(int k=0;k<i;k++) rp.prefix[k]=ch[k].c; rp.prefix[i]=ch[i].c+1; done=false; break; }
                    }
                }
            }
        } else {
            Mode m= mode=="pct"?M_PCT:M_RAND;
            if(wl_max>1||w==0){ rp.mode=M_DFS; rp.prefix.clear(); rp.seed=seed; run_one(fn,tr,cfg); emit(tr,cfg); rp.est_len=shm->steps; if(rp.est_len<2) rp.est_len=2; if(wl_max==1) continue; }
            rp.mode=m; uint64_t k=0;
            while(execs<max_execs&&execs-wl0<wl_max&&elapsed()-wt0<wt){ rp.seed=seed*1000003ull+(++k)+w*7919ull; run_one(fn,tr,cfg); emit(tr,cfg); }
        }
    }
    if(fo!=stdout) fclose(fo);
    fprintf(stderr,"STATS execs=%ld unique=%ld steps=%llu complete=%d time=%.2f\n",execs,uniq,steps,(int)(mode=="dfs"&&complete),elapsed());
    return 0;
}
}
