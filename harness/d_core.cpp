#include <array>
#include <cy_core.h>
#include <cy_event.h>
#include <utility/cyu_ring_queue.h>
#include <utility/cyu_statistics.h>
#include "d_util.h"
#include <thread>
#include <map>
#include <unistd.h>
#include <fcntl.h>
using namespace cyclone;
using namespace vs;
static long long us(){ return (now_ns()-1000000000ll)/1000; }
// ------------------------------------------------------------------------------------------ Packet
static std::string obs(const Packet* p){
    size_t n=p->get_packet_size(), m=p->get_memory_size(); const char* c=p->get_packet_content(); const uint8_t* b=(const uint8_t*)p->get_memory_buf();
    std::string o="{\"id\":"+std::to_string(p->get_packet_id())+",\"n\":"+std::to_string(n)+",\"m\":"+std::to_string(m)+",\"w\":"+(b&&m>=4?bytes_json(b,4):"[]")+",\"uh\":"+(b&&m>n+4?runs(b+4,m-n-4):"[]")+",\"c\":"+(c?runs((const uint8_t*)c,n):"[]")+"}"; return o; }
VS_SCENARIO(packet){
    static size_t heads[]={4,4,4,5,6,8,12,16,31}; size_t head=rnd_int(0,4)?heads[rnd_int(0,8)]:(size_t)rnd_int(900,1300); const int near=head<=1016?1016-(int)head:0; bool big=rnd_int(0,1); int nops=param("ops",40); int prof=rnd_int(0,2);
    set_cfg("{\"head\":"+std::to_string(head)+"}");
    const int N=3; Packet* slot[N]; for(int i=0;i<N;i++) slot[i]=Packet::alloc_packet();
    RingBuf* ring=rnd_int(0,1)?new RingBuf():new RingBuf((size_t)rnd_int(1,40)); std::string wire; size_t sent=0; // bytes fed into the ring so far of `wire`
    Pipe* pipe=new Pipe(); int inpipe=0; size_t pipebytes=0; int nb=rnd_int(0,250); std::vector<size_t> psz;
    auto size=[&]()->size_t{ switch(rnd_int(0,9)){ case 0: return 0; case 1: return 1; case 2: return near; case 3: return std::max(0,near+rnd_int(-2,2)); case 4: return big?(size_t)65535:(size_t)rnd_int(0,2000); case 5: return big?(size_t)rnd_int(0,65535):(size_t)rnd_int(0,20); case 6: return 250+rnd_int(0,12); default: return (size_t)rnd_int(0,prof?20:400); } };
    for(int k=0;k<nops;k++){
        int s=rnd_int(0,N-1); Packet* p=slot[s];
        switch(rnd_int(0,11)){
        case 0: case 1: case 2: { // build
            size_t n=size(), n1=rnd_int(0,2)==0?n:rnd_int(0,3)==0?0:(size_t)rnd_int(0,(int)n), n2=n-n1; int b1=nb,b2=nb+100; nb=(nb+n+1)%251; int id=rnd_int(0,3)==0?rnd_int(0,65535):rnd_int(0,1)?0x0102*rnd_int(0,255)&0xffff:rnd_int(0,300);
            std::string d1=pattern(b1,n1), d2=pattern(b2%251,n2); b1%=251;b2%=251;
            if(n2==0&&rnd_int(0,1)) p->build_from_memory(head,(uint16_t)id,(uint16_t)n1,d1.data()); else p->build_from_memory(head,(uint16_t)id,(uint16_t)n1,d1.data(),(uint16_t)n2,d2.data());
            // the user defined part of the head is the caller's to fill
            if(head>4){ std::string u=pattern((b1+7)%251,head-4); memcpy(p->get_memory_buf()+4,u.data(),u.size()); }
            Ev("mem").i("p",s).i("id",id).i("b1",b1).i("n1",n1).i("b2",b2).i("n2",n2).i("bu",(b1+7)%251).raw("o",obs(p)); break; }
        case 3: { int d=(s+rnd_int(1,N-1))%N; Packet* q=Packet::alloc_packet(slot[d]); Packet::free_packet(p); slot[s]=q; Ev("copy").i("p",s).i("from",d).raw("o",obs(q)); break; }
        case 4: { // scribble over one packet: the others are unaffected
            if(p->get_packet_content()&&p->get_packet_size()>0){ size_t n=p->get_packet_size(); int b=nb; std::string d=pattern(b,n); memcpy(p->get_packet_content(),d.data(),n); Ev("scribble").i("p",s).i("b",b); }
            break; }
        case 5: { if(rnd_int(0,2)) { Ev("see").i("p",s).raw("o",obs(p)); break; } p->clean(); Ev("clean").i("p",s).raw("o",obs(p)); break; }
        case 6: { // put on the wire
            if(p->get_memory_size()>0&&wire.size()<300000){ wire.append(p->get_memory_buf(),p->get_memory_size()); psz.push_back(p->get_memory_size()); Ev("send").i("p",s); } break; }
        case 7: case 8: { size_t left=wire.size()-sent; if(!left) break; size_t n; switch(rnd_int(0,5)){ case 0: n=1; break; case 1: n=2; break; case 2: n=rnd_int(1,(int)head+1); break; case 3: n=left; break; case 4: n=left>1?left-1:1; break; default: n=rnd_int(1,(int)std::min<size_t>(left,900)); } n=std::min(n,left); ring->memcpy_into(wire.data()+sent,n); sent+=n; Ev("feed").i("n",n); break; }
        case 9: case 10: { bool r=p->build_from_ringbuf(head,*ring); if(r) Ev("parse").i("p",s).b("r",r).raw("o",obs(p)).i("left",ring->size()); else Ev("parse").i("p",s).b("r",r).i("left",ring->size()); break; }
        case 11: { // whole packets through the pipe
            if(rnd_int(0,1)){ if(p->get_memory_size()==0||pipebytes+p->get_memory_size()>65536) break; size_t off=0,m=p->get_memory_size(); while(off<m){ size_t c=rnd_int(0,1)?m-off:(size_t)rnd_int(1,(int)(m-off)); if(c>4096) c=4096; if(pipe->write(p->get_memory_buf()+off,c)!=(ssize_t)c) break; off+=c; } if(off<m){ Ev("pipe_short"); break; } inpipe++; pipebytes+=m; Ev("psend").i("p",s); }
            else { bool r=p->build_from_pipe(head,*pipe); if(r){ inpipe--; pipebytes-=p->get_memory_size(); Ev("pparse").i("p",s).b("r",r).raw("o",obs(p)); } else Ev("pparse").i("p",s).b("r",r); }
            break; }
        }
    }
    for(int i=0;i<N;i++){ Ev("see").i("p",i).raw("o",obs(slot[i])); }
    for(int i=0;i<N;i++) Packet::free_packet(slot[i]);
    delete ring; delete pipe; Ev("fin");
}
// ------------------------------------------------------------------------------------------ RingQueue
template<class T,class MK,class GET> static void ringq(MK mk,GET get){
    int fixed=rnd_int(0,2)==0?0:rnd_int(1,rnd_int(0,1)?5:40); RingQueue<T>* q=fixed?new RingQueue<T>((size_t)fixed):new RingQueue<T>();
    set_cfg("{\"cap\":"+std::to_string(fixed)+"}"); int nx=1, nops=param("ops",60); int bias=rnd_int(0,3);
    for(int k=0;k<nops;k++){
        int op=rnd_int(0,11); int reps=1;
        if(op<=4||(bias==1&&op<=6)){ reps=rnd_int(0,5)==0?rnd_int(1,70):rnd_int(1,3); int first=nx; for(int i=0;i<reps;i++){ q->push(mk(nx)); nx++; } Ev("push").i("v",first).i("n",reps); }
        else if(op<=8){ size_t n=rnd_int(0,8)==0?(size_t)rnd_int(0,200):rnd_int(0,9)==0?q->size():rnd_int(0,20)==0?~(size_t)0:(size_t)rnd_int(0,4); if(n==1&&rnd_int(0,1)) q->pop(); else q->pop(n); Ev("pop").i("n",n>1000000?1000000:(long long)n); }
        else if(op==9&&rnd_int(0,5)==0){ q->reset(); Ev("qreset"); }
        else if(op==10){ // a stopping walk
            size_t stop=rnd_int(0,6); std::string a="[",b="["; int c=0; q->walk([&](size_t i,const T& v){ if(c) a+=","; a+="["+std::to_string(i)+","+std::to_string(get(v))+"]"; return ++c<(int)stop; }); c=0; q->walk_reserve([&](size_t i,const T& v){ if(c) b+=","; b+="["+std::to_string(i)+","+std::to_string(get(v))+"]"; return ++c<(int)stop; }); Ev("walkn").i("n",stop).raw("a",a+"]").raw("b",b+"]"); }
        std::string a="[",b="[",g="["; bool first=true; bool idx=true; size_t want=0; q->walk([&](size_t i,const T& v){ if(!first) a+=","; first=false; a+=std::to_string(get(v)); idx=idx&&i==want; want++; return true; }); first=true; size_t n=q->size(); want=n; q->walk_reserve([&](size_t i,const T& v){ if(!first) b+=","; first=false; b+=std::to_string(get(v)); want--; idx=idx&&i==want; return true; });
        for(size_t i=0;i<n;i++){ if(i) g+=","; g+=std::to_string(get(q->get(i))); }
        Ev("q").i("n",n).b("em",q->empty()).i("cap",q->capacity()).i("free",q->get_free_size()).i("f",n?get(q->front()):0).i("l",n?get(q->back()):0).raw("a",a+"]").raw("b",b+"]").raw("g",g+"]").b("ix",idx);
    }
    delete q; Ev("fin");
}
VS_SCENARIO(ringq_int){ ringq<int>([](int v){return v;},[](const int& v){return v;}); }
VS_SCENARIO(ringq_str){ ringq<std::string>([](int v){return "element number "+std::to_string(v)+" with a long text";},[](const std::string& s){return s.size()>15?atoi(s.c_str()+15):-1;}); }
// ------------------------------------------------------------------------------------------ PeriodValue
template<class PV> static void period_seq(){
    int per=rnd_int(0,3)==0?1000:rnd_int(1,50); PV* v= per==1000&&rnd_int(0,1)?new PV():new PV(per); set_cfg("{\"per\":"+std::to_string(v->get_time_period())+",\"want\":"+std::to_string(per)+"}"); long long now=rnd_int(1,100); int nops=param("ops",50); int step=rnd_int(0,3);
    for(int k=0;k<nops;k++){
        if(rnd_int(0,2)) now+= step==0?0: step==1?rnd_int(0,3): step==2?rnd_int(0,per): (rnd_int(0,9)==0?per+rnd_int(-1,1):rnd_int(0,2));
        if(rnd_int(0,3)){ int n=rnd_int(0,6)==0?rnd_int(1,60):1; int x=rnd_int(-50,1000); for(int i=0;i<n;i++) v->push(x,now); Ev("sample").i("v",x).i("n",n).i("at",now); }
        else { auto r=v->sum_and_counts(now); Ev("sum").i("s",(long long)r.first).i("c",r.second).i("at",now).i("tot",v->total_counts()); }
    }
    delete v; Ev("fin");
}
VS_SCENARIO(period_seq_l){ period_seq<PeriodValue<int64_t,true>>(); }
VS_SCENARIO(period_seq_n){ period_seq<PeriodValue<int32_t,false>>(); }
VS_SCENARIO(period_clock){ // implicit times are the virtual clock
    typedef PeriodValue<int32_t,true> PV; int per=rnd_int(5,40); sys_api::performance_time_now(); sleep_ms(3); PV* v=new PV(per); set_cfg("{\"per\":"+std::to_string(v->get_time_period())+",\"want\":"+std::to_string(per)+"}");
    for(int k=0;k<param("ops",30);k++){ if(rnd_int(0,1)) sleep_ms(rnd_int(0,per/2+1)); long long a=sys_api::performance_time_now()/1000; if(rnd_int(0,2)){ int x=rnd_int(0,99); v->push(x); long long b=sys_api::performance_time_now()/1000; Ev("sample2").i("v",x).i("a",a).i("b",b); } else { auto r=v->sum_and_counts(); long long b=sys_api::performance_time_now()/1000; Ev("sum2").i("s",r.first).i("c",r.second).i("a",a).i("b",b); } }
    delete v; Ev("fin");
}
VS_SCENARIO(period_mt){ // recorders and readers on one locked statistic, all at one time
    typedef PeriodValue<int32_t,true> PV; static PV* v; v=new PV(1000); static int nx; nx=0; set_cfg("{\"per\":1000,\"want\":1000}");
    if(param("mem",0)) kopt.mem_points=param("mem",0);
    int pre=rnd_int(0,1)?rnd_int(28,31):0; for(int i=0;i<pre;i++){ v->push(1,5); } if(pre){ Ev("sample").i("v",1).i("n",pre).i("at",5); }
    int np=param("np",2),nr=param("nr",1),ops=param("ops",2); long long T= rnd_int(0,1)?1100:500;
    if(pre&&T==1100&&rnd_int(0,1)){ int m=rnd_int(0,4); for(int i=0;i<m;i++){ v->push(2,600); } if(m){ Ev("sample").i("v",2).i("n",m).i("at",600); auto r=v->sum_and_counts(T); Ev("sum").i("s",r.first).i("c",r.second).i("at",T).i("tot",v->total_counts()); if(rnd_int(0,1)) T=1700; } }   // the content is about to wrap
    std::vector<std::thread*> ts; std::vector<int> rnd; for(int i=0;i<64;i++) rnd.push_back(rnd_int(0,param("tot",3)));
    for(int i=0;i<np+nr;i++) ts.push_back(new std::thread([=]{ for(int k=0;k<ops;k++){ if(i<np){ int x=1<<(8+nx++); Ev("inv").s_("op","push").i("v",x).i("at",T); v->push(x,T); Ev("res").i("s",0).i("c",0); } else if(rnd[i*8+k]==0){ Ev("inv").s_("op","tot").i("v",0).i("at",T); size_t c=v->total_counts(); Ev("res").i("s",0).i("c",c>1000000000?-1:(long long)c); } else { Ev("inv").s_("op","sum").i("v",0).i("at",T); auto r=v->sum_and_counts(T); Ev("res").i("s",r.first).i("c",r.second); } } }));
    for(auto t: ts){ t->join(); delete t; }
    auto r=v->sum_and_counts(T); Ev("sum").i("s",r.first).i("c",r.second).i("at",T).i("tot",v->total_counts()); delete v; Ev("fin");
}
// ------------------------------------------------------------------------------------------ MinMax
template<class T> struct Num { static long long out(T x){ if(x==std::numeric_limits<T>::max()||x==std::numeric_limits<T>::lowest()) return 999999; long long s=std::numeric_limits<T>::is_integer?1:4; double d=(double)x*s; return d>1e6?1000000:d<-1e6?-1000000:d!=(double)(long long)d?777777:(long long)d; } static T in(int k){ return std::numeric_limits<T>::is_integer?(T)k:(T)(k*0.25); } };
template<class T> static void minmax(){
    typedef MinMaxValue<T> MM; static MM* m; static std::atomic<T>* at; kopt.weak_cas_fail=param("weak",0); bool sg=std::numeric_limits<T>::is_signed; int sign=rnd_int(0,2);
    auto val=[=]{ int k=rnd_int(1,9); return sg?(sign==0?k:sign==1?-k:k-5):k; };
    int init=0; bool has=rnd_int(0,1); if(has){ init=val(); m=new MM(Num<T>::in(init)); } else m=new MM(); int a0=val(); at=new std::atomic<T>(Num<T>::in(a0));
    set_cfg("{\"has\":"+std::string(has?"true":"false")+",\"init\":"+std::to_string(init)+",\"at\":"+std::to_string(a0)+"}");
    int nw=param("nw",2),nr=param("nr",1),ops=param("ops",2); bool useat=param("ex",0); std::vector<std::thread*> ts; bool seq=param("seq",0);
    auto work=[=](int i,std::vector<int> vals){ for(int k=0;k<ops;k++){ int x=vals[k];
        if(useat){ int y=vals[ops+k]; bool g=(x^y^i)&1; Ev("inv").s_("op",g?"gx":"sx").i("v",x).i("w",y); bool r=g?atomic_greater_exchange(*at,Num<T>::in(x),Num<T>::in(y)):atomic_smaller_exchange(*at,Num<T>::in(x),Num<T>::in(y)); Ev("res").b("ok",r).i("r",0); }
        else if(i<nw){ Ev("inv").s_("op","upd").i("v",x).i("w",0); m->update(Num<T>::in(x)); Ev("res").b("ok",true).i("r",0); }
        else { bool mx=x&1; Ev("inv").s_("op",mx?"max":"min").i("v",0).i("w",0); T r=mx?m->max():m->min(); Ev("res").b("ok",true).i("r",Num<T>::out(r)); } } };
    for(int i=0;i<nw+nr;i++){ std::vector<int> vals; for(int k=0;k<2*ops;k++) vals.push_back(val()); if(seq) work(i,vals); else ts.push_back(new std::thread([=]{ work(i,vals); })); }
    for(auto t: ts){ t->join(); delete t; }
    if(useat) Ev("final").i("at",Num<T>::out(at->load())); else Ev("mm").i("min",Num<T>::out(m->min())).i("max",Num<T>::out(m->max()));
    delete m; delete at; Ev("fin");
}
VS_SCENARIO(minmax_i32){ minmax<int32_t>(); }
VS_SCENARIO(minmax_u32){ minmax<uint32_t>(); }
VS_SCENARIO(minmax_i64){ minmax<int64_t>(); }
VS_SCENARIO(minmax_f64){ minmax<double>(); }
VS_SCENARIO(minmax_f32){ minmax<float>(); }
// ------------------------------------------------------------------------------------------ signals and mutexes
VS_SCENARIO(syncs){
    static sys_api::signal_t sg; static sys_api::mutex_t mx; sg=sys_api::signal_create(); mx=sys_api::mutex_create();
    kopt.time_choice=param("clock",1); int nt=param("nt",0); if(!nt) nt=rnd_int(2,4); int ops=param("ops",2); std::string kind=param_s("kind","");
    if(param("round",0)){ kopt.round_clock=true; sleep_ms(rnd_int(0,1)?rnd_int(994,1000):rnd_int(0,2000)); }       // whole milliseconds, deadlines on and about a whole second
    if(param("pre",0)||(!*param_s("pre","").c_str()&&rnd_int(0,2)==0)){ Ev("inv").s_("op","notify").i("ms",0).i("us",us()); sys_api::signal_notify(sg); Ev("res").b("r",true).i("us",us()); }
    std::vector<std::thread*> ts;
    for(int i=0;i<nt;i++){
        std::vector<std::array<int,2>> script; for(int k=0;k<ops;k++){ int o; if(kind=="sig") o=rnd_int(0,3); else if(kind=="mtx") o=rnd_int(4,6); else if(kind=="tw") o=rnd_int(0,1)?1:2; else o=rnd_int(0,6); int ms=rnd_int(0,2)==0?0:rnd_int(1,3)*(rnd_int(0,1)?1:1000); script.push_back({o,ms}); }
        ts.push_back(new std::thread([=]{ for(auto& s: script){ int ms=s[1];
            switch(s[0]){
            case 0: Ev("inv").s_("op","wait").i("ms",0).i("us",us()); sys_api::signal_wait(sg); Ev("res").b("r",true).i("us",us()); break;
            case 1: case 7: { Ev("inv").s_("op","tw").i("ms",ms).i("us",us()); bool r=sys_api::signal_timewait(sg,ms); Ev("res").b("r",r).i("us",us()); break; }
            case 2: case 3: Ev("inv").s_("op","notify").i("ms",0).i("us",us()); sys_api::signal_notify(sg); Ev("res").b("r",true).i("us",us()); break;
            case 4: Ev("inv").s_("op","lock").i("ms",0).i("us",us()); sys_api::mutex_lock(mx); Ev("res").b("r",true).i("us",us()); if(ms>0) sleep_ms(ms); else point(); Ev("inv").s_("op","unlock").i("ms",0).i("us",us()); sys_api::mutex_unlock(mx); Ev("res").b("r",true).i("us",us()); break;
            case 5: { Ev("inv").s_("op","lock").i("ms",0).i("us",us()); { sys_api::auto_mutex g(mx); Ev("res").b("r",true).i("us",us()); point(); Ev("inv").s_("op","unlock").i("ms",0).i("us",us()); } Ev("res").b("r",true).i("us",us()); break; }
            default: { Ev("inv").s_("op","try").i("ms",ms).i("us",us()); bool r=sys_api::mutex_try_lock(mx,ms); Ev("res").b("r",r).i("us",us()); if(r){ if(ms>0) sleep_ms(ms); else point(); Ev("inv").s_("op","unlock").i("ms",0).i("us",us()); sys_api::mutex_unlock(mx); Ev("res").b("r",true).i("us",us()); } }
            } } }));
    }
    for(auto t: ts){ t->join(); delete t; }
    // what is left over is observable
    { Ev("inv").s_("op","tw").i("ms",0).i("us",us()); } bool r=sys_api::signal_timewait(sg,0); { Ev("res").b("r",r).i("us",us()); }
    sys_api::signal_destroy(sg); sys_api::mutex_destroy(mx); Ev("fin");
}
// ------------------------------------------------------------------------------------------ threads
static std::map<std::thread::id,int>* idmap; static int idx_of(std::thread::id i){ auto it=idmap->find(i); if(it!=idmap->end()) return it->second; int n=(int)idmap->size()+1; (*idmap)[i]=n; return n; }
VS_SCENARIO(threads){
    idmap=new std::map<std::thread::id,int>(); kopt.time_choice=param("clock",1); int n=param("n",0); if(!n) n=rnd_int(1,3); static int params[8]; static const char* names[]={"worker","","a much longer thread name than sixteen bytes",nullptr,"w2"};
    struct T { thread_t h; bool det; bool joined; }; std::vector<T> ts;
    { Ev("main").i("id",idx_of(sys_api::thread_get_current_id())); }
    for(int k=0;k<n;k++){
        bool det=rnd_int(0,3)==0; int nm=rnd_int(0,4); int work=rnd_int(0,3); bool nullf=rnd_int(0,9)==0; void* prm=rnd_int(0,5)==0?nullptr:(void*)&params[k]; int pv=prm?k+1:0; std::string big(rnd_int(0,1)*100,'x');
        sys_api::thread_function f; if(!nullf) f=[=](void* p){ Ev("run").i("k",k).i("p",p==nullptr?0:(int)((int*)p-params)+1).s_("name",sys_api::thread_get_current_name()).i("id",idx_of(sys_api::thread_get_current_id())).i("real",idx_of(std::this_thread::get_id())).i("cap",big.size());
            if(work==1) sys_api::thread_yield(); else if(work==2) sys_api::thread_sleep(2); else if(work==3) sys_api::thread_sleep(30);
            Ev("ret").i("k",k).i("id",idx_of(sys_api::thread_get_current_id())).s_("name",sys_api::thread_get_current_name()); };
        char nbuf[64]; const char* np=names[nm]; if(np){ strncpy(nbuf,np,63); nbuf[63]=0; np=nbuf; }
        Ev("create").i("k",k).b("det",det).b("nullf",nullf).i("p",pv).s_("name",names[nm]?names[nm]:"").i("cap",big.size());
        if(det){ sys_api::thread_create_detached(f,prm,np); ts.push_back({nullptr,true,false}); Ev("created").i("k",k).i("id",0); }
        else { thread_t h=sys_api::thread_create(f,prm,np); ts.push_back({h,false,false}); Ev("created").i("k",k).i("id",idx_of(sys_api::thread_get_id(h))); }
        memset(nbuf,'Z',sizeof nbuf); f=nullptr;
        if(rnd_int(0,3)==0){ settle(); Ev("settled"); }
    }
    for(int r=0;r<12;r++){ bool left=false; for(int k=0;k<n;k++){ if(ts[k].det||ts[k].joined) continue; left=true; if(r<3&&rnd_int(0,1)) continue; int ms= r>=11?-1: rnd_int(0,3)==0?-1: rnd_int(0,2)==0?0:rnd_int(1,20);
            if(r<6&&rnd_int(0,4)==0){ settle(); Ev("settled"); }
            Ev("join").i("k",k).i("ms",ms).i("us",us()); bool ok= ms<0&&rnd_int(0,1)? sys_api::thread_join(ts[k].h): sys_api::thread_join(ts[k].h,ms); Ev("joined").i("k",k).b("r",ok).i("us",us()); ts[k].joined=ok; } if(!left) break; }
    wait_others_done(); Ev("quiet");
    Ev("fin");
}
// ------------------------------------------------------------------------------------------ Pipe
VS_SCENARIO(pipes){
    int before=open_fds(); kopt.pipe_cap=rnd_int(0,1)?65536:rnd_int(0,1)?5000:rnd_int(1,64); int prof=rnd_int(0,2); bool mt=param("mt",0); int nops=param("ops",30); bool sockp=param("sockp",0); kopt.sock_rxcap=rnd_int(0,1)?65536:rnd_int(1,64);
    static Pipe* p; pipe_port_t h[2]={-1,-1}; bool ok=true; p=nullptr; if(sockp){ bool f=param("fault",rnd_int(0,5)==0); kopt.sock_fail=kopt.fcntl_fail=kopt.setfd_fail=f; ok=Pipe::construct_socket_pipe(h); kopt.sock_fail=kopt.fcntl_fail=kopt.setfd_fail=false; } else { p=new Pipe(); h[0]=p->get_read_port(); h[1]=p->get_write_port(); }
    int cap=sockp?kopt.sock_rxcap:kopt.pipe_cap;
    set_cfg("{\"cap\":"+std::to_string(cap)+",\"sock\":"+(sockp?"true":"false")+"}");
    if(!ok){ { Ev("nopipe").i("fds",open_fds()-before).b("inv",h[0]==INVALID_SOCKET&&h[1]==INVALID_SOCKET); } Pipe::destroy_socket_pipe(h); { Ev("closed").i("fds",open_fds()-before); } Ev("fin"); return; }
    { Ev("opened").b("ok",ok).i("fds",open_fds()-before).b("nb",fd_nonblock(h[0])&&fd_nonblock(h[1])).b("ce",fd_cloexec(h[0])&&fd_cloexec(h[1])); }
    static int base; base=rnd_int(0,250);
    auto wr=[=](int n){ std::string d=pattern(base,n); Ev("winv").i("b",base).i("n",n); ssize_t r=p?p->write(d.data(),n):socket_api::write(h[1],d.data(),n); int er=errno; if(r>0) base=(base+(int)r)%251; Ev("wres").i("r",r).b("again",r<0&&socket_api::is_lasterror_WOULDBLOCK()); };
    auto rd=[=](int n){ std::string o(n+8,(char)253); Ev("rinv").i("n",n); ssize_t r=p?p->read(&o[0],n):socket_api::read(h[0],&o[0],n); bool ag=r<0&&socket_api::is_lasterror_WOULDBLOCK(); bool g=true; for(size_t i=n;i<o.size();i++) g=g&&(uint8_t)o[i]==253; Ev("rres").i("r",r).b("again",ag).raw("d",r>0?runs((const uint8_t*)o.data(),std::min((size_t)r,o.size())):"[]").b("g",g); };
    auto len=[=]{ switch(rnd_int(0,6)){ case 0: return 1; case 1: return cap; case 2: return cap+1; case 3: return prof?rnd_int(1,9000):8; default: return prof==0?rnd_int(1,12):rnd_int(1,3000); } };
    if(!mt){ for(int k=0;k<nops;k++){ if(rnd_int(0,99)<(prof==1?60:50)) wr(len()); else rd(len()); } }
    else { std::vector<int> a,b; for(int k=0;k<nops;k++){ a.push_back(len()); b.push_back(len()); } std::thread w([=]{ for(int n: a) wr(n); }), r([=]{ for(int n: b) rd(n); }); w.join(); r.join(); }
    for(int k=0;k<300;k++){ std::string o(65536,0); ssize_t r=p?p->read(&o[0],o.size()):socket_api::read(h[0],&o[0],o.size()); Ev("rinv").i("n",65536); Ev("rres").i("r",r).b("again",r<0).raw("d",r>0?runs((const uint8_t*)o.data(),r):"[]").b("g",true); if(r<=0) break; }
    if(p) delete p; else Pipe::destroy_socket_pipe(h);
    Ev("closed").i("fds",open_fds()-before); Ev("fin");
}
int main(int c,char** v){ return run_main(c,v); }
