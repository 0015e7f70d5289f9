#include <cy_core.h>
#include <cy_event.h>
#include "d_util.h"
#include <thread>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/socket.h>
#include <set>
#include <signal.h>
using namespace cyclone;
using namespace vs;
static long long us(){ return (now_ns()-1000000000ll)/1000; }
// ------------------------------------------------------------------------------------------ Looper
struct Inst; struct Desc { int fd=-1, far=-1; bool used=false; int kind=0; }; // kind: 0 socket, 1 writing end of a pipe, 2 reading end
struct Inst { int k=0; Looper::event_id_t id=0; int fd=-1; Desc* d=nullptr; bool alive=false,timer=false,shared=false,nor=false,now=false; long long pval=0; int per=0; };
struct Magic { uint32_t m=0x600dcafe; ~Magic(){ m=0xdead; } Magic(){} Magic(const Magic&){} };
static Looper* lp; static std::vector<Inst*> inst; static Desc descs[64]; static int ndesc; static int budget, total, nextk; static bool use_shared; static std::atomic<bool> stopping; static int selfstop; static int lasttimerfd; static int deferred_far;
static void mkdesc(Desc* d){ d->kind=rnd_int(0,5); if(d->kind>2) d->kind=0; EnvScope e; int v[2]; d->used=false; if(d->kind){ (void)!pipe2(v,O_NONBLOCK); d->fd=v[d->kind==1]; d->far=v[d->kind!=1]; } else { socketpair(AF_UNIX,SOCK_STREAM|SOCK_NONBLOCK,0,v); d->fd=v[0]; d->far=v[1]; } }
static std::string ready(bool w){ std::string o="["; bool f=true; for(auto i: inst) if(i->alive&&i->fd>=0&&(w?fd_writable(i->fd):fd_readable(i->fd))){ if(!f) o+=","; f=false; o+=std::to_string(i->k); } return o+"]"; }
static void feed(Desc* d,int kind){ EnvScope e; char b[64]={0};
    if(d->far<0) return;
    if(d->kind==1&&kind==0){ (void)!read(d->far,b,rnd_int(1,64)); return; }
    if(d->kind==2&&(kind==1||kind==2)) return;
    if(d->kind&&kind==4) kind=3;
    if(d->kind==2&&kind==0){ (void)!write(d->far,b,rnd_int(1,4)); return; }
    if(kind==0) { (void)!send(d->far,b,rnd_int(1,4),MSG_NOSIGNAL); }
    else if(kind==1){ while(read(d->far,b,sizeof b)>0); }                        // make room
    else if(kind==2){ char big[512]={0}; EnvScope e2; while(write(d->fd,big,sizeof big)>0); } // fill: not writable
    else if(kind==3){ close(d->far); d->far=-1; }
    else { sock_reset(d->far); d->far=-1; } }
static void act(Inst* self,bool wr,bool in_timer);
static void in_cb(Inst* i,const char* kind,Looper::event_id_t id,int fd,int ev,void* prm,const Magic* mg){
    { Ev("cb").i("k",i->k).s_("kind",kind).i("id",id).i("fd",fd).i("ev",ev).i("prm",(long long)(intptr_t)prm).i("now",us()); }
    total++;
    bool wr=kind[0]=='w';
    if(kind[0]!='t'&&!wr&&rnd_int(0,3)){ char b[64]; if(rnd_int(0,1)) socket_api::read(fd,b,1); else { while(socket_api::read(fd,b,sizeof b)>0); } }
    if(wr&&rnd_int(0,3)==0){ char big[512]={0}; while(write(fd,big,sizeof big)>0); }
    if(total>budget||stopping){ // wind down: this one is done
        if(i->alive){ if(rnd_int(0,1)&&!i->shared){ { Ev("del").i("k",i->k); } i->alive=false; lp->delete_event(i->id); if(i->d) i->d->used=false; } else { { Ev("inv").s_("op","disA").i("k",i->k); } lp->disable_all(i->id); { Ev("res").b("r",true).i("now",us()); } } } }
    else { int n=rnd_int(0,2); for(int k=0;k<n;k++) act(i,wr,kind[0]=='t'); }
    bool ok= !mg||mg->m==0x600dcafe;
    Ev("cbend").i("k",i->k).b("ok",ok);
}
static Inst* reg_event(Desc* d,int ev,bool shared=false){
    if(inst.size()>=60) return nullptr; Inst* i=new Inst; i->k=nextk++; i->fd=d->fd; i->d=d; d->used=true; i->pval=1000+i->k; i->shared=shared; inst.push_back(i);
    Looper::event_callback rc,wc; int style=rnd_int(0,2);
    if(style==0){ rc=[i](Looper::event_id_t id,socket_t fd,Looper::event_t e,void* p){ Inst* me=i; in_cb(me,"r",id,fd,e,p,nullptr); volatile Inst* again=i; if(again!=me) Ev("corrupt"); };
                  wc=[i](Looper::event_id_t id,socket_t fd,Looper::event_t e,void* p){ Inst* me=i; in_cb(me,"w",id,fd,e,p,nullptr); volatile Inst* again=i; if(again!=me) Ev("corrupt"); }; }
    else { Magic mg; std::string pad(40,'p'); rc=[i,mg,pad](Looper::event_id_t id,socket_t fd,Looper::event_t e,void* p){ in_cb(i,"r",id,fd,e,p,&mg); }; wc=[i,mg,pad](Looper::event_id_t id,socket_t fd,Looper::event_t e,void* p){ in_cb(i,"w",id,fd,e,p,&mg); }; }
    // now and then an event has no callback for one direction; that direction is at most enabled together with the other
    if(d->kind&&ev==d->kind) ev=rnd_int(0,1)?3:3-d->kind;
    if(d->kind||(!shared&&rnd_int(0,4)==0)){ int m=d->kind?d->kind:rnd_int(1,2); if(!(ev==m)) { if(m==1){ rc=nullptr; i->nor=true; } else { wc=nullptr; i->now=true; } } }
    i->id=lp->register_event(d->fd,(Looper::event_t)ev,(void*)(intptr_t)i->pval,rc,wc); if(i->nor) ev&=~1; if(i->now) ev&=~2;
    i->alive=true; Ev("reg").i("k",i->k).i("id",i->id).i("fd",d->fd).i("prm",i->pval).b("r",ev&1).b("w",ev&2).b("tm",false).b("sh",shared).i("per",0).i("t0",0).i("t1",0); return i;
}
static Inst* reg_timer(int ms){
    if(param("long",0)&&rnd_int(0,2)){ static const int P[]={999,1000,1001,1500,2000,2300,60000}; ms=P[rnd_int(0,rnd_int(0,3)?5:6)]; }
    if(inst.size()>=60) return nullptr; Inst* i=new Inst; i->k=nextk++; i->timer=true; i->pval=2000+i->k; i->per=ms; inst.push_back(i); long long t0=us(); lasttimerfd=-1;
    Magic mg; std::string pad(40,'t'); int style=rnd_int(0,1);
    if(style) i->id=lp->register_timer_event(ms,(void*)(intptr_t)i->pval,[i,mg,pad](Looper::event_id_t id,void* p){ in_cb(i,"t",id,-1,0,p,&mg); });
    else i->id=lp->register_timer_event(ms,(void*)(intptr_t)i->pval,[i](Looper::event_id_t id,void* p){ Inst* me=i; in_cb(me,"t",id,-1,0,p,nullptr); volatile Inst* again=i; if(again!=me) Ev("corrupt"); });
    if(kopt.timer_fail&&lasttimerfd<0){ Ev("tfail").b("inv",i->id==Looper::INVALID_EVENT_ID); return nullptr; }
    i->fd=lasttimerfd; i->alive=true; Ev("reg").i("k",i->k).i("id",i->id).i("fd",-1).i("prm",i->pval).b("r",true).b("w",false).b("tm",true).b("sh",false).i("per",(long long)ms*1000).i("t0",t0).i("t1",us()); return i;
}
static void del(Inst* i){ { Ev("del").i("k",i->k); } i->alive=false; int fd=i->fd; if(i->timer) i->fd=-1; lp->delete_event(i->id); if(i->d) i->d->used=false; if(i->timer&&fd>=0&&fd_is_open(fd)&&fd_kind(fd)=="timer"){ bool other=false; for(auto j: inst) if(j->alive&&j->fd==fd) other=true; if(!other) Ev("timerfd_left"); } }
static const char* ops[]={"enR","disR","enW","disW","disA","isR","isW"};
static void toggle(Inst* i,int op){ if(i->nor&&(op==0||op==1||op==5)) op=op==5?6:op+2; else if(i->now&&(op==2||op==3||op==6)) op=op==6?5:op-2; { Ev("inv").s_("op",ops[op]).i("k",i->k); } bool r=true; switch(op){ case 0: lp->enable_read(i->id); break; case 1: lp->disable_read(i->id); break; case 2: lp->enable_write(i->id); break; case 3: lp->disable_write(i->id); break; case 4: lp->disable_all(i->id); break; case 5: r=lp->is_read(i->id); break; case 6: r=lp->is_write(i->id); break; } Ev("res").b("r",r).i("now",us()); }
static void stop_req(){ { Ev("stop"); } stopping=true; lp->push_stop_request(); { Ev("stopped").b("q",true); } }
static Inst* pick_alive(bool own){ std::vector<Inst*> v; for(auto i: inst) if(i->alive&&(!own||!i->shared)) v.push_back(i); return v.empty()?nullptr:v[rnd_int(0,(int)v.size()-1)]; }
static void act(Inst* self,bool wr,bool in_timer){
    switch(rnd_int(0,param("tm",0)?15:11)){
    case 0: case 1: { Desc* d=&descs[rnd_int(0,ndesc-1)]; if(!d->used) reg_event(d,rnd_int(0,3)); break; }
    case 2: if(self->alive&&!self->shared) { Desc* d=self->d; del(self); if(d&&rnd_int(0,1)) reg_event(d,rnd_int(0,3)); else if(rnd_int(0,1)){ Desc* e=&descs[rnd_int(0,ndesc-1)]; if(!e->used) reg_event(e,rnd_int(1,3)); } } break;
    case 3: { Inst* o=pick_alive(true); if(o){ Desc* d=o->d; del(o); if(rnd_int(0,1)){ Desc* e=&descs[rnd_int(0,ndesc-1)]; if(!e->used) reg_event(e,rnd_int(1,3)); else if(d&&!d->used) reg_event(d,rnd_int(1,3)); } } break; }
    case 4: case 5: { Inst* o=pick_alive(false); if(o) toggle(o,o->timer?(rnd_int(0,1)?0:rnd_int(0,1)?1:5):rnd_int(0,6)); break; }
    case 6: if(self->alive) toggle(self,in_timer?(rnd_int(0,1)?0:1):rnd_int(0,6)); break;
    case 7: case 8: { Desc* d=&descs[rnd_int(0,ndesc-1)]; feed(d,rnd_int(0,1)?0:rnd_int(0,9)?rnd_int(0,2):rnd_int(3,4)); break; }
    case 9: if(rnd_int(0,2)==0&&total>5&&selfstop){ selfstop=0; stop_req(); } break;
    case 10: { int n=rnd_int(0,3)==0?18:1; for(int k=0;k<n;k++){ Desc* d=nullptr; for(int j=0;j<ndesc;j++) if(!descs[j].used){ d=&descs[j]; break; } if(!d||inst.size()>45) break; reg_event(d,rnd_int(0,3)); } break; } // grow the table
    case 11: { Inst* o=pick_alive(false); if(o&&!o->timer){ toggle(o,1); toggle(o,0); } break; }
    case 12: reg_timer(rnd_int(1,20)); break;
    case 13: sleep_ms(rnd_int(1,param("long",0)?2500:25)); break;
    case 14: { Inst* o=pick_alive(true); if(o&&o->timer){ del(o); if(rnd_int(0,1)) reg_timer(rnd_int(1,20)); } break; }
    case 15: if(in_timer&&self->alive){ del(self); if(rnd_int(0,1)) reg_timer(rnd_int(1,20)); } break;
    }
}
static void looper_setup(){
    inst.clear(); nextk=0; total=0; stopping=false; budget=param("budget",0); if(!budget) budget=rnd_int(5,40); selfstop=param("selfstop",1)?rnd_int(0,1):0; kopt.timer_fail=param("tm",0)&&rnd_int(0,3)==0; kopt.time_choice=param("clock",param("tm",0)); kopt.eintr=param("eintr",0); kopt.poll_order=param("order",0);
    on_fd_open=[](int fd,const char* kind){ if(!strcmp(kind,"timer")) lasttimerfd=fd; };
    on_poll=[]{ if(lp) Ev("poll").raw("rd",ready(false)).raw("wr",ready(true)).i("now",us()); };
    on_poll_block=[]{ if(lp) Ev("block").raw("rd",ready(false)).raw("wr",ready(true)).i("now",us()); };
    
    kopt.sock_rxcap=2048; kopt.pipe_cap=8192; signal(SIGPIPE,SIG_IGN);
}
static void looper_teardown(int before){
    std::vector<Inst*> v=inst; for(auto i: v) if(i->alive){ toggle(i,5); if(!i->timer) toggle(i,6); }
    for(auto i: v) if(i->alive) del(i);
    Looper* l=lp; lp=nullptr; Looper::destroy_looper(l);
    for(int j=0;j<ndesc;j++){ EnvScope e; close(descs[j].fd); if(descs[j].far>=0) close(descs[j].far); }
    Ev("closed").i("fds",open_fds()-before); Ev("fin");
}
// callbacks that register, enable, disable and delete anything, with an environment and a second thread
VS_SCENARIO(looper){
    int before=open_fds(); looper_setup(); bool stepmode=param("step",0); int crowd=param("crowd",0);
    ndesc=crowd?crowd:rnd_int(std::min(2,param("nd",6)),param("nd",6)); for(int j=0;j<ndesc;j++) mkdesc(&descs[j]);
    lp=Looper::create_looper(); int prereq=param("pre",-1); if(prereq<0) prereq=rnd_int(0,ndesc);
    if(crowd){ for(int j=0;j<ndesc;j++) if(rnd_int(0,4)) feed(&descs[j],0); prereq=ndesc; budget=crowd*3; }
    int nsh=param("xt",0)?rnd_int(1,2):0;
    for(int j=0;j<prereq&&j<ndesc;j++) reg_event(&descs[j],crowd?rnd_int(1,3):rnd_int(0,3),j<nsh);
    if(param("tm",0)) for(int j=rnd_int(0,3);j>0;j--) reg_timer(rnd_int(1,25));
    std::vector<Inst*> sh; for(auto i: inst) if(i->shared) sh.push_back(i);
    std::vector<std::thread*> ts; int envops=param("env",6); bool stepdone=false; static std::atomic<bool> loopdone; loopdone=false;
    // the outside world
    std::thread env([=]{ for(int k=0;k<envops&&!loopdone;k++){ int w=rnd_int(0,5); if(w==0){ settle(); } else if(w==1) sleep_ms(rnd_int(1,param("long",0)?5000:param("tm",0)?60:5)); else { point(); feed(&descs[rnd_int(0,ndesc-1)],rnd_int(0,2)?0:rnd_int(0,7)?rnd_int(0,2):rnd_int(3,4)); Ev("env"); } } 
        if(!loopdone){ settle(); } });
    for(int x=0;x<param("xt",0);x++) ts.push_back(new std::thread([=]{ int n=rnd_int(1,4); for(int k=0;k<n;k++){ if(sh.empty()) break; toggle(sh[rnd_int(0,(int)sh.size()-1)],rnd_int(0,6)); if(rnd_int(0,3)==0) settle(); } }));
    for(int x=0;x<param("stoppers",0);x++) ts.push_back(new std::thread([=]{ int w=rnd_int(0,4); if(w==1) settle(); else if(w==2) sleep_ms(rnd_int(1,10)); else for(int k=rnd_int(0,6);k>0;k--) point(); stop_req(); Ev("qp").b("r",lp->is_quit_pending()); }));
    std::thread fin; if(!stepmode) fin=std::thread([=,&env]{ env.join(); if(!loopdone){ settle(); if(!loopdone){ if(!kopt.time_choice) { Ev("quiesce").raw("rd",ready(false)).raw("wr",ready(true)).i("now",us()); } stop_req(); } } });
    if(rnd_int(0,2)==0&&param("tm",0)) sleep_ms(rnd_int(1,30));
    if(stepmode){ int n=rnd_int(3,15); for(int k=0;k<n;k++){ { Ev("step"); } lp->step(); { Ev("stepped"); } if(rnd_int(0,3)==0){ if(rnd_int(0,1)) settle(); else sleep_ms(rnd_int(1,9)); } } loopdone=true; env.join(); }
    else { { Ev("loop"); } lp->loop(); { Ev("looped").b("q",lp->is_quit_pending()); } loopdone=true; fin.join(); }
    for(auto t: ts){ t->join(); delete t; }
    if(rnd_int(0,3)==0&&!stepmode){ { Ev("loop"); } lp->loop(); { Ev("looped").b("q",lp->is_quit_pending()); } { Ev("step"); } lp->step(); { Ev("stepped"); } }
    looper_teardown(before);
}
// one requester, and a loop thread which destroys the looper as soon as the loop has returned
VS_SCENARIO(lstop){
    int before=open_fds(); looper_setup(); ndesc=rnd_int(0,2); for(int j=0;j<ndesc;j++) mkdesc(&descs[j]);
    static sys_api::signal_t up; up=sys_api::signal_create(); static Looper* req; req=nullptr;
    bool early=param("early",1)&&rnd_int(0,1); 
    std::thread t([=]{ lp=Looper::create_looper(); req=lp; for(int j=0;j<ndesc;j++){ if(rnd_int(0,1)) feed(&descs[j],0); reg_event(&descs[j],rnd_int(0,1)); } budget=rnd_int(0,4); sys_api::signal_notify(up); if(early) for(int k=rnd_int(0,5);k>0;k--) point();
        { Ev("loop"); } lp->loop(); { Ev("looped").b("q",lp->is_quit_pending()); } std::vector<Inst*> v=inst; if(rnd_int(0,1)) for(auto i: v) if(i->alive) { i->alive=false; Ev("del").i("k",i->k); lp->delete_event(i->id); } Looper* l=lp; lp=nullptr; Looper::destroy_looper(l); });
    sys_api::signal_wait(up); int w=rnd_int(0,3); if(w==1) settle(); else for(int k=rnd_int(0,8);k>0;k--) point();
    { Ev("stop"); } stopping=true; req->push_stop_request(); { Ev("stopped").b("q",true); }
    t.join(); sys_api::signal_destroy(up); for(int j=0;j<ndesc;j++){ EnvScope e; close(descs[j].fd); if(descs[j].far>=0) close(descs[j].far); }
    Ev("closed").i("fds",open_fds()-before); Ev("fin");
}
// ------------------------------------------------------------------------------------------ WorkThread
static WorkThread* wt; static int wthr; static int wstopat; static std::atomic<int> wgot; static sys_api::signal_t wgate; static bool wblocked;
static void snd(int s,int& seq,int self){
    int form=rnd_int(0,3); auto size=[]{ switch(rnd_int(0,7)){ case 0: return 0; case 1: return 1; case 2: return 1000; case 3: return 2000; default: return rnd_int(0,40); } };
    if(form==2){ int n=rnd_int(0,3); std::vector<Packet*> ps; std::vector<const Packet*> cp; std::string l="["; for(int k=0;k<n;k++){ Packet* p=Packet::alloc_packet(); int z=size(); int id=s*1000+seq; std::string d=pattern((seq*7+s*31)%251,z); p->build_from_memory(WorkThread::MESSAGE_HEAD_SIZE,(uint16_t)id,(uint16_t)z,d.data()); ps.push_back(p); cp.push_back(p); if(k) l+=","; l+="["+std::to_string(id)+","+std::to_string((seq*7+s*31)%251)+","+std::to_string(z)+"]"; seq++; }
        { Ev("send").i("s",s).raw("m",l+"]"); } wt->send_message(n?cp.data():nullptr,n); { Ev("sent").i("s",s); } for(auto p: ps){ if(p->get_packet_content()) memset(p->get_packet_content(),7,p->get_packet_size()); Packet::free_packet(p); } }
    else { int z=size(); int id=s*1000+seq; int b=(seq*7+s*31)%251; seq++; std::string d=pattern(b,z); { Ev("send").i("s",s).raw("m","[["+std::to_string(id)+","+std::to_string(b)+","+std::to_string(z)+"]]"); }
        if(form==0){ int z1=rnd_int(0,z); wt->send_message((uint16_t)id,(uint16_t)z1,d.data(),(uint16_t)(z-z1),d.data()+z1); } else if(form==3&&z>0) wt->send_message((uint16_t)id,(uint16_t)z,d.data());
        else { Packet* p=Packet::alloc_packet(); p->build_from_memory(WorkThread::MESSAGE_HEAD_SIZE,(uint16_t)id,(uint16_t)z,d.data()); wt->send_message(p); if(p->get_packet_content()&&z) memset(p->get_packet_content(),9,z); Packet::free_packet(p); }
        { Ev("sent").i("s",s); } }
}
VS_SCENARIO(worker){
    int before=open_fds(); kopt.pipe_cap=rnd_int(0,1)?65536:4096; 
    bool refuse=param("refuse",-1)>=0?param("refuse",0):rnd_int(0,9)==0; bool has_start=rnd_int(0,4)!=0||refuse; int ns=param("ns",0); if(!ns) ns=rnd_int(1,3); int nops=param("ops",3); bool self=param("self",0)||rnd_int(0,3)==0; bool early=param("stopearly",0); static bool pre_sent; static int startwork; startwork=rnd_int(0,3);
    wt=new WorkThread(); static int selfseq; selfseq=0; wgot=0; static int wstop; wstop= param("cbstop",0)?rnd_int(1,4):0; static bool slf; slf=self;
    set_cfg(std::string("{\"refuse\":")+(refuse?"true":"false")+",\"start\":"+(has_start?"true":"false")+"}");
    if(has_start) wt->set_on_start([=]{ { Ev("onstart").b("here",sys_api::thread_get_current_id()==(wt->get_looper()?wt->get_looper()->get_thread_id():thread_id_t())).s_("name",sys_api::thread_get_current_name()); } for(int k=0;k<startwork;k++) point(); if(slf&&rnd_int(0,1)) snd(9,selfseq,1); { Ev("started").b("r",!refuse); } return !refuse; });
    wt->set_on_message([=](Packet* p){ { Ev("msg").i("id",p->get_packet_id()).raw("d",p->get_packet_size()?runs((const uint8_t*)p->get_packet_content(),p->get_packet_size()):"[]").i("n",p->get_packet_size()).b("here",sys_api::thread_get_current_id()==wt->get_looper()->get_thread_id()); }
        int g=++wgot; if(slf&&selfseq<4&&rnd_int(0,1)) snd(9,selfseq,1); if(wstop&&g==wstop){ { Ev("wstop"); } wt->get_looper()->push_stop_request(); { Ev("wstopped"); } } Ev("msgend"); });
    int ps=0; if(rnd_int(0,3)==0&&param("presend",1)) { for(int k=rnd_int(1,2);k>0;k--) snd(8,ps,0); }   // sent before start
    { Ev("start"); } wt->start("the worker"); { Ev("running").b("lp",wt->get_looper()!=nullptr).b("run",wt->is_running()).s_("name",wt->get_name()); }
    std::vector<std::thread*> ts; for(int s=0;s<ns;s++) ts.push_back(new std::thread([=]{ int q=0; for(int k=0;k<nops;k++){ snd(s,q,0); if(rnd_int(0,4)==0) sleep_ms(1); } }));
    if(early){ for(int k=rnd_int(0,20);k>0;k--) point(); }
    else { for(auto t: ts){ t->join(); delete t; } ts.clear(); settle(); Ev("quiet"); if(rnd_int(0,1)){ int q=100; snd(7,q,0); settle(); Ev("quiet"); } }
    if(!refuse&&!param("cbstop",0)){ { Ev("wstop"); } wt->get_looper()->push_stop_request(); { Ev("wstopped"); } }
    if(!refuse&&param("cbstop",0)){ // make sure the callback gets to stop it
        int q=500; while(wgot<wstop&&q<510){ snd(6,q,0); settle(); } }
    { Ev("join"); } wt->join(); { Ev("joined").b("run",wt->is_running()); } if(rnd_int(0,2)==0){ { Ev("join"); } wt->join(); { Ev("joined").b("run",wt->is_running()); } }
    for(auto t: ts){ t->join(); delete t; }
    settle(); delete wt; Ev("closed").i("fds",open_fds()-before); Ev("fin");
}
// more pending messages than the queue has room for
VS_SCENARIO(worker_flood){
    int before=open_fds(); wt=new WorkThread(); static sys_api::signal_t gate,in; gate=sys_api::signal_create(); in=sys_api::signal_create(); static long long got,bad; got=0; bad=0; int n=param("n",70000); set_cfg("{\"refuse\":false,\"start\":false}");
    wt->set_on_message([](Packet* p){ if(p->get_packet_id()==65535){ sys_api::signal_notify(in); sys_api::signal_wait(gate); return; } if(p->get_packet_id()!=(uint16_t)(got%60000)) bad++; got++; });
    wt->start("w"); wt->send_message((uint16_t)65535,(uint16_t)0,nullptr); sys_api::signal_wait(in); for(int i=0;i<n;i++) wt->send_message((uint16_t)(i%60000),(uint16_t)0,nullptr);
    sys_api::signal_notify(gate); settle(); { Ev("flood").i("n",n).i("got",got).i("bad",bad); } wt->get_looper()->push_stop_request(); wt->join(); delete wt; Ev("closed").i("fds",open_fds()-before); Ev("fin");
}
int main(int c,char** v){ return run_main(c,v); }
