#include "d_app.h"
#include <fstream>
#include <dirent.h>
#include <sys/syscall.h>
#include "samples/filetransfer/ft_common.h"
namespace app_fs {
#include "samples/filetransfer/ft_server.cpp"
}
namespace app_fc {
#include "samples/filetransfer/ft_client.cpp"
}
// everything happens in a scratch directory: the server's file there, the client's in its sub directory "out"
static std::string dir; static const int FP_=22000;
static void wipe(const std::string& d){ DIR* h=opendir(d.c_str()); if(!h) return; std::vector<std::string> f; while(dirent* e=readdir(h)) if(e->d_type==DT_REG) f.push_back(e->d_name); closedir(h); for(auto& x: f) unlink((d+"/"+x).c_str()); }
static void clean(){ EnvScope e; wipe(dir+"/out/logs"); rmdir((dir+"/out/logs").c_str()); wipe(dir+"/out"); rmdir((dir+"/out").c_str()); wipe(dir); rmdir(dir.c_str()); }
static std::string slurp(const std::string& p,bool* ok=nullptr){ std::string d; int fd=syscall(SYS_open,p.c_str(),O_RDONLY,0); if(ok) *ok=fd>=0; if(fd<0) return d; char b[65536]; ssize_t k; while((k=syscall(SYS_read,fd,b,sizeof b))>0) d.append(b,k); syscall(SYS_close,fd); return d; }
static std::string content(int n){ std::string s; while((int)s.size()<n){ int k=rnd_int(0,3)?n-(int)s.size():rnd_int(1,n-(int)s.size()); s+=pattern(rnd_int(0,250),k); } return s; }
static int fsize(int big){ int l[]={0,1,2,15,16,17,65535,65536,65537,131071,131072,131073,196608,262144}; switch(rnd_int(0,5)){ case 0: return l[rnd_int(0,big?13:5)]; case 1: return rnd_int(1,100); case 2: return rnd_int(1000,9000); case 3: return big?rnd_int(60000,72000):rnd_int(100,3000); case 4: return big?rnd_int(65536,300000):rnd_int(1,3000); default: return big?65536*rnd_int(1,4)+rnd_int(0,40):rnd_int(1,500); } }
static void ft_setup(){
    a_setup(); int rx[]={1000,4096,10000,65536,200000}; kopt.sock_rxcap=param("rx",rx[rnd_int(0,4)]); kopt.poll_order=false; kopt.poll_fifo=true; kopt.spurious_eagain=false; kopt.short_io=param("short",rnd_int(0,3)==0);
    dir="/tmp/vft."+std::to_string(getppid()); clean(); mkdir(dir.c_str(),0755); mkdir((dir+"/out").c_str(),0755); if(chdir((dir+"/out").c_str())!=0) finish("chdir"); cyclone::set_log_threshold(cyclone::L_FATAL);
}
static void ft_result(int r){ EnvScope e; bool ok; std::string d=slurp(dir+"/out/src.bin",&ok); int other=0; DIR* h=opendir((dir+"/out").c_str()); if(h){ while(dirent* x=readdir(h)) if(x->d_type==DT_REG&&strcmp(x->d_name,"src.bin")) other++; closedir(h); } Ev("out").i("r",r).b("ex",ok).i("n",d.size()).raw("d",runs(d)).i("parts",other); }
static void put_file(const std::string& d){ EnvScope e; int fd=syscall(SYS_open,(dir+"/src.bin").c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); syscall(SYS_write,fd,d.data(),d.size()); syscall(SYS_close,fd); }
static std::vector<std::string> srv_args(int nt){ return {"-p",std::to_string(FP_),"-f",dir+"/src.bin","-t",std::to_string(nt)}; }
static void run_client(){ { Ev("cstart"); } std::vector<std::string> a={"ft_client","-h","127.0.0.1","-p",std::to_string(FP_)}; std::vector<char*> v; for(auto& s: a) v.push_back((char*)s.c_str()); v.push_back(nullptr); int r=app_fc::main((int)v.size()-1,v.data()); ft_result(r); }
// ---------------------------------------------------------------------- raw clients of the server
struct Req { std::string rest; };
static std::map<int,std::string>* rq; static std::map<int,long long>* need;   // bytes still to send, data bytes still to come
static std::map<int,int> rwait;   // what a raw client has asked for: 0 nothing, 1 information, 2 a fragment
template<class T> static std::string mem(const T& t){ return std::string((const char*)&t,sizeof t); }
static void raw_recv(Pr* p,const std::string& d){ p->acc+=d; for(;;){ long long& nd=(*need)[p->key]; if(nd>0){ size_t k=std::min<size_t>(nd,p->acc.size()); if(!k) return; { Ev("rd").i("k",p->key).i("n",k).raw("d",runs((const uint8_t*)p->acc.data(),k)); } nd-=k; p->acc.erase(0,k); continue; }
    if(p->acc.size()<sizeof(FT_Head)) return; FT_Head h; memcpy(&h,p->acc.data(),sizeof h); if(h.size<(int)sizeof(FT_Head)||h.size>4000){ Ev("rjunk").i("k",p->key).i("size",h.size); p->acc.clear(); return; } if((int)p->acc.size()<h.size) return; std::string m=p->acc.substr(0,h.size); p->acc.erase(0,h.size);
    if(h.id==FT_ReplyFileInfo::ID&&m.size()>=sizeof(FT_ReplyFileInfo)){ if(rwait[p->key]==1) rwait[p->key]=0; FT_ReplyFileInfo i; memcpy(&i,m.data(),sizeof i); std::string nm=m.substr(sizeof i); Ev("ri").i("k",p->key).i("n",i.fileSize).i("nt",i.threadCounts).i("nl",i.nameLength).b("name",nm==std::string("src.bin",8)); }
    else if(h.id==FT_ReplyFileFragment_Begin::ID&&m.size()==sizeof(FT_ReplyFileFragment_Begin)){ FT_ReplyFileFragment_Begin b; memcpy(&b,m.data(),sizeof b); { Ev("rb").i("k",p->key).i("off",b.fileOffset).i("n",b.fragmentSize); } nd=b.fragmentSize; }
    else if(h.id==FT_ReplyFileFragment_End::ID&&m.size()==sizeof(FT_ReplyFileFragment_End)){ FT_ReplyFileFragment_End b; memcpy(&b,m.data(),sizeof b); Ev("re").i("k",p->key).i("hi",b.fragmentCRC>>16).i("lo",b.fragmentCRC&0xffff); }
    else { Ev("rjunk").i("k",p->key).i("size",h.id); p->acc.clear(); return; } } }
static void raw_push(Pr* p,bool all){ EnvScope e; std::string& s=(*rq)[p->key]; if(p->fd<0||p->eof||s.empty()) return; size_t k=all||rnd_int(0,2)?s.size():(size_t)rnd_int(1,(int)s.size()); ssize_t n=send(p->fd,s.data(),k,MSG_NOSIGNAL); if(n>0) s.erase(0,n); if(n<0&&errno!=EAGAIN) s.clear(); }
static void raw_op(int nfile,int& key,int maxk,int end){
    auto v=a_live(); int w=rnd_int(0,12); if(v.empty()||(w==0&&key<maxk)){ if(key<maxk) a_connect(key++,FP_); return; } Pr* p=v[rnd_int(0,(int)v.size()-1)];
    if(w<5){ if(!(*rq)[p->key].empty()){ raw_push(p,false); return; } int kind=rnd_int(0,5);
        if(kind<2){ if(rwait[p->key]==1||(rwait[p->key]==2&&rnd_int(0,5))) return; if(rwait[p->key]==0) rwait[p->key]=1; FT_RequireFileInfo q; q.id=FT_RequireFileInfo::ID; q.size=sizeof q; { Ev("qi").i("k",p->key); } (*rq)[p->key]=mem(q); }
        else if(rwait[p->key]==0){ FT_RequireFileFragment q; memset(&q,0,sizeof q); q.id=FT_RequireFileFragment::ID; q.size=sizeof q; int off=rnd_int(0,nfile), n=rnd_int(0,nfile-off); switch(kind==2?rnd_int(0,4):9){ case 0: off=nfile; n=1+rnd_int(0,9); break; case 1: n=nfile-off+1; break; case 2: n=-rnd_int(1,60); break; case 3: off=nfile+1; n=0; break; case 4: off=rnd_int(0,9); n=2147483647; break; } q.fileOffset=(size_t)(long long)off; q.fragmentSize=n; { Ev("qf").i("k",p->key).i("off",off).i("n",n); } rwait[p->key]=2; (*rq)[p->key]=mem(q); }
        raw_push(p,false); /* one message at a time */ }
    else if(w<9) a_recv(p,rnd_int(1,3000)); else if(w==9) settle(); else if(w==10) for(int z=rnd_int(1,6);z>0;z--) point(); else if(w==11) raw_push(p,false); else if(rnd_int(0,2)==0&&end) a_end(p,end);
}
// one message at a time per raw client: the next one only when the last one has been answered
static void raw_init(){ rq=new std::map<int,std::string>; need=new std::map<int,long long>; rwait.clear(); g_onrecv=raw_recv; }
static void raw_flush(){ for(int z=0;z<50;z++){ bool any=false; a_drain(); for(auto p: a_live()) if(!p->eof&&!(*rq)[p->key].empty()){ raw_push(p,true); any=true; } if(!any) break; } a_drain(); }
static void ft_end(){ if(chdir("/")!=0){} clean(); app_end(); }
VS_SCENARIO(ft){
    ft_setup(); raw_init(); int nt=param("nt",-1); if(nt<0) nt=rnd_int(1,4); int n=param("size",-1); if(n<0) n=fsize(1); if(kopt.sock_rxcap<4096&&n>150000) kopt.sock_rxcap=65536; if(n>20000) kopt.short_io=false; int raw=param("raw",rnd_int(0,3)==0?3:0), clients=param("clients",rnd_int(1,2)); int end=rnd_int(0,4); bool late=!raw&&param("late",rnd_int(0,5)==0);
    std::string src=content(n); put_file(src); set_cfg("{\"src\":"+runs(src)+",\"nt\":"+std::to_string(nt)+",\"raw\":"+(raw?"true":"false")+"}");
    if(late) set_connect_policy(FP_,rnd_int(0,1)?CP_REFUSE:CP_TIMEOUT,3);
    app_start(app_fs::main,srv_args(nt),"server"); settle();
    static int key; key=0; static bool over; over=false; static bool go; go=!raw||rnd_int(0,1); std::thread* env=nullptr;
    if(late) new std::thread([]{ sleep_ms(rnd_int(100,7000)); set_connect_policy(FP_,CP_AUTO); });
    if(raw) env=env_thread([=]{ for(int o=0;o<raw*10;o++){ if(o==raw*3) go=true; raw_op(n,key,raw,end); if(over) break; } go=true; for(int z=0;z<400&&!over;z++){ raw_flush(); sleep_ms(50); } });
    if(raw) block_until([]{ return go; });
    for(int c=0;c<clients;c++) run_client();
    over=true; if(env){ env->join(); raw_flush(); a_quiet(); } ft_end();
}
VS_SCENARIO(ftraw){
    ft_setup(); raw_init(); int nt=param("nt",-1); if(nt<0) nt=rnd_int(1,3); int n=param("size",-1); if(n<0) n=fsize(rnd_int(0,3)==0); if(n>20000) kopt.short_io=false; int ops=param("ops",-1); if(ops<0) ops=rnd_int(8,40); int end=rnd_int(0,4); int nk=param("nk",-1); if(nk<0) nk=rnd_int(1,4);
    std::string src=content(n); put_file(src); set_cfg("{\"src\":"+runs(src)+",\"nt\":"+std::to_string(nt)+",\"raw\":true}"); app_start(app_fs::main,srv_args(nt),"server"); settle();
    static int key; key=0; std::thread* env=env_thread([=]{ for(int o=0;o<ops;o++) raw_op(n,key,nk,end); }); env->join(); raw_flush(); a_quiet();
    for(auto p: a_live()) if(rnd_int(0,1)) a_close(p); settle(); a_drain(); int more=key+rnd_int(0,3); for(int o=0;o<10;o++) raw_op(n,key,more,0); raw_flush(); a_quiet(); ft_end();
}
// ---------------------------------------------------------------------- the client against servers of every kind
VS_SCENARIO(ftbad){
    ft_setup(); int nt=param("nt",-1); if(nt<0) nt=rnd_int(1,3); int n=param("size",-1); if(n<0) n=fsize(rnd_int(0,2)==0); if(n>20000) kopt.short_io=false; int bad=param("bad",-1); if(bad<0) bad=rnd_int(0,9);
    std::string src=content(n); set_cfg("{\"src\":"+runs(src)+",\"nt\":"+std::to_string(nt)+",\"raw\":false}"); static int lfd; lfd=a_listen(FP_);
    struct Sv { std::string in,out; bool end=false; }; static std::map<int,Sv>* sv; sv=new std::map<int,Sv>; static int key; key=0; static bool over; over=false; static std::string* data; data=new std::string(src);
    g_onrecv=[=](Pr* p,const std::string& d){ Sv& s=(*sv)[p->key]; s.in+=d; FT_Head h; if(s.in.size()<sizeof h) return; memcpy(&h,s.in.data(),sizeof h); if((int)s.in.size()<h.size) return;
        if(h.id==FT_RequireFileInfo::ID){ { Ev("sqi").i("k",p->key); } FT_ReplyFileInfo r; memset(&r,0,sizeof r); r.id=FT_ReplyFileInfo::ID; if(bad==1){ r.id=77; Ev("harm"); } r.size=sizeof r+8; r.fileSize=data->size(); r.threadCounts=nt; r.nameLength=8; s.out=mem(r)+std::string("src.bin",8); if(bad==2){ { Ev("harm"); } s.out.resize(rnd_int(0,(int)s.out.size()-1)); s.end=true; } }
        else if(h.id==FT_RequireFileFragment::ID){ FT_RequireFileFragment q; memcpy(&q,s.in.data(),sizeof q); { Ev("sqf").i("k",p->key).i("off",q.fileOffset).i("n",q.fragmentSize); } if(q.fileOffset>data->size()||q.fragmentSize<0||q.fileOffset+q.fragmentSize>data->size()){ s.end=true; s.in.clear(); return; }
            bool mine=p->key==1||rnd_int(0,1); FT_ReplyFileFragment_Begin b; memset(&b,0,sizeof b); b.id=FT_ReplyFileFragment_Begin::ID; b.size=sizeof b; b.fileOffset=q.fileOffset; b.fragmentSize=q.fragmentSize; std::string dt=data->substr(q.fileOffset,q.fragmentSize); FT_ReplyFileFragment_End e; e.id=FT_ReplyFileFragment_End::ID; e.size=sizeof e; e.fragmentCRC=cyclone::adler32(INITIAL_ADLER,(const uint8_t*)dt.data(),dt.size());
            if(mine) switch(bad){ case 3: b.fileOffset++; Ev("harm"); break; case 4: b.fragmentSize--; Ev("harm"); break; case 5: e.fragmentCRC^=1u<<rnd_int(0,31); Ev("harm"); break; case 6: e.id=9; Ev("harm"); break; case 7: if(!dt.empty()){ dt[rnd_int(0,(int)dt.size()-1)]^=1<<rnd_int(0,7); Ev("harm"); } break; }
            s.out=mem(b)+dt+mem(e); if(mine&&bad==8){ { Ev("harm"); } s.out.resize(rnd_int(0,(int)s.out.size()-1)); s.end=true; } }
        s.in.clear(); };
    std::thread* env=env_thread([=]{ for(int z=0;z<20000&&!over;z++){ bool any=false; while(a_accept(lfd,key)){ key++; any=true; }
        for(auto& x: prs){ Pr* p=x.second; if(p->fd<0) continue; while(a_recv(p,100000)) any=true; if(p->eof){ a_close(p); any=true; continue; } Sv& s=(*sv)[p->key]; if(!s.out.empty()){ EnvScope e; size_t k=rnd_int(0,3)?s.out.size():(size_t)rnd_int(1,(int)std::min<size_t>(s.out.size(),3000)); ssize_t r=send(p->fd,s.out.data(),k,MSG_NOSIGNAL); if(r>0){ s.out.erase(0,r); any=true; } else if(r<0&&errno!=EAGAIN){ s.out.clear(); any=true; } } else if(s.end){ s.end=false; if(rnd_int(0,1)) a_close(p); else a_reset(p); any=true; } }
        if(rnd_int(0,2)==0) settle(); if(!any){ settle(); bool rd=fd_readable(lfd); for(auto& x: prs) if(x.second->fd>=0&&fd_readable(x.second->fd)) rd=true; if(!rd&&!over) sleep_ms(20); } } });
    run_client(); over=true; env->join(); ft_end();
}
int main(int c,char** v){ return run_main(c,v); }
