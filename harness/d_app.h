#pragma once
// The sample programs run as they are (their main, in a thread of the simulated system); this file has the
// peers they talk to, which are plain sockets of the environment.  Include it before the sample sources: every
// standard and system header a sample may use has to be in place, because each sample is compiled inside a namespace.
#include <bits/stdc++.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <dlfcn.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <signal.h>
#include <pthread.h>
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include <cy_crypt.h>
#include <utility/cyu_simple_opt.h>
#include <utility/cyu_string_util.h>
#include <utility/cyu_statistics.h>
#include <utility/cyu_ring_queue.h>
#include "d_util.h"
using namespace vs;
static int g_cpus=2;
extern "C" long sysconf(int n){ static long(*real)(int)=(long(*)(int))dlsym(RTLD_NEXT,"sysconf"); return n==_SC_NPROCESSORS_ONLN&&active()?g_cpus:real(n); }
// one end held by the environment: key is its name in the recording
struct Pr { int key=-1, fd=-1, port=0; bool eof=false; long long recvd=0, sent=0; int base=0; std::string acc; int grp=0; };
static std::map<int,Pr*> prs;
typedef std::function<void(Pr*,const std::string&)> RecvFn;
static std::string (*g_enc)(const uint8_t*,size_t)=[](const uint8_t* p,size_t n){ return runs(p,n); };
static RecvFn g_onrecv;      // replaces the plain "pr" event when set
static sockaddr_in lo_addr(int port){ sockaddr_in a; memset(&a,0,sizeof a); a.sin_family=AF_INET; a.sin_port=htons(port); a.sin_addr.s_addr=htonl(INADDR_LOOPBACK); return a; }
static Pr* a_connect(int key,int port){ EnvScope e; int fd=socket(AF_INET,SOCK_STREAM|SOCK_NONBLOCK,0); sockaddr_in a=lo_addr(port); connect(fd,(sockaddr*)&a,sizeof a); int err=0; socklen_t l=sizeof err; getsockopt(fd,SOL_SOCKET,SO_ERROR,&err,&l);
    { Ev("cc").i("k",key).i("p",port).b("ok",err==0); } if(err){ close(fd); return nullptr; } Pr* p=new Pr; p->key=key; p->fd=fd; p->port=port; prs[key]=p; return p; }
static int a_listen(int port){ EnvScope e; int fd=socket(AF_INET,SOCK_STREAM|SOCK_NONBLOCK,0); sockaddr_in a=lo_addr(port); bind(fd,(sockaddr*)&a,sizeof a); listen(fd,10); return fd; }
static Pr* a_accept(int lfd,int key){ EnvScope e; int fd=accept4(lfd,nullptr,nullptr,SOCK_NONBLOCK); if(fd<0) return nullptr; Pr* p=new Pr; p->key=key; p->fd=fd; p->port=sock_local_port(fd); prs[key]=p; { Ev("ac").i("k",key).i("p",p->port); } return p; }
static bool a_recv(Pr* p,int max){ EnvScope e; if(p->fd<0||p->eof) return false; std::string b(max,0); ssize_t k=read(p->fd,&b[0],max);
    if(k>0){ p->recvd+=k; b.resize(k); if(g_onrecv) g_onrecv(p,b); else Ev("pr").i("k",p->key).i("n",k).raw("d",g_enc((const uint8_t*)b.data(),k)); return true; }
    if(k==0){ p->eof=true; Ev("pe").i("k",p->key); return true; }
    if(errno!=EAGAIN){ p->eof=true; Ev("px").i("k",p->key).i("err",errno); return true; } return false; }
// sends a byte string; what the window does not take is not sent
static long a_send(Pr* p,const std::string& d,const char* ev="ps"){ EnvScope e; if(p->fd<0) return -1; ssize_t k=send(p->fd,d.data(),d.size(),MSG_NOSIGNAL); if(k>0){ p->sent+=k; if(ev) Ev(ev).i("k",p->key).i("n",k).raw("d",g_enc((const uint8_t*)d.data(),k)); } return k; }
static void a_close(Pr* p){ EnvScope e; if(p->fd<0) return; { Ev("pc").i("k",p->key).i("un",sock_unread(p->fd)); } close(p->fd); p->fd=-1; }
static void a_shut(Pr* p){ EnvScope e; if(p->fd<0) return; { Ev("ph").i("k",p->key); } shutdown(p->fd,SHUT_WR); }
static void a_reset(Pr* p){ EnvScope e; if(p->fd<0) return; { Ev("prst").i("k",p->key); } sock_reset(p->fd); p->fd=-1; }
static std::vector<Pr*> a_live(){ std::vector<Pr*> v; for(auto& k: prs) if(k.second->fd>=0) v.push_back(k.second); return v; }
static void a_end(Pr* p,int end){ int x=end==4?rnd_int(1,3):end; if(x==1) a_close(p); else if(x==2) a_reset(p); else if(x==3) a_shut(p); }
static std::function<bool()> g_more;   // something else for the environment to take (accepts)
static void a_drain(){ for(int z=0;z<600;z++){ bool any=false; if(g_more&&g_more()) any=true; for(auto& k: prs) while(a_recv(k.second,1000)) any=true; settle(); if(g_more&&g_more()) any=true; for(auto& k: prs) if(k.second->fd>=0&&!k.second->eof&&fd_readable(k.second->fd)) any=true; if(!any) break; } }
static void a_quiet(){ Ev("quiet"); }
static void a_setup(){
    prs.clear(); int rx[]={64,200,1000,4096,65536}; kopt.sock_rxcap=param("rx",rx[rnd_int(0,4)]); kopt.short_io=param("short",rnd_int(0,1)); kopt.spurious_eagain=param("eagain",rnd_int(0,2)==0); kopt.poll_order=param("porder",rnd_int(0,1)); kopt.eintr=false;
    g_cpus=param("nw",-1); if(g_cpus<0) g_cpus=rnd_int(1,3); g_onrecv=nullptr; g_more=nullptr;
}
typedef int (*main_fn)(int,char**);
static std::thread* app_start(main_fn m,std::vector<std::string> args,const char* name){
    return new std::thread([=]{ std::vector<std::string>* a=new std::vector<std::string>(args); std::vector<char*>* v=new std::vector<char*>; v->push_back((char*)name); for(auto& s: *a) v->push_back((char*)s.c_str()); v->push_back(nullptr);
        int r=m((int)v->size()-1,v->data()); Ev("exit").s_("a",name).i("r",r); });
}
static std::thread* env_thread(std::function<void()> f){ return new std::thread(f); }
[[noreturn]] static void app_end(){ { Ev("fin"); } finish("end"); }
static std::string text(int base,int n){ std::string s(n,0); for(int i=0;i<n;i++) s[i]=(char)(32+(base+i)%95); return s; }
