#include <cy_core.h>
#include "d_util.h"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
using namespace cyclone;
using namespace vs;
// ------------------------------------------------------------------------------------------ the disk log
static std::string dir, paths[5]; static int nid; static const char* names[]={"<UNNAME>","w1","w two","w3","w4"};
static std::string text(int id,int n){ std::string s(n,0); for(int i=0;i<n;i++) s[i]="abcdefghijklmnopqrstuvwxyz%\\ []:"[(id*7+i)%31]; return s; }
static int len(){ int l[]={0,1,2030,2040,2041,2042,2043,2044,2045,2046,2047,2048,2049,4093,4096,9000}; int w=rnd_int(0,31); return w<16?l[w]:rnd_int(0,60); }
static void put(int s){
    int lv=rnd_int(0,5), id=nid++, n=len(); std::string t=text(id,n); { Ev("log").i("id",id).i("lv",lv).i("n",n).i("s",s); }
    int form=rnd_int(0,2);
    if(form==0) disk_log((LOG_LEVEL)lv,"m%d %s",id,t.c_str());
    else if(form==1) disk_log((LOG_LEVEL)lv,"m%d %.*s%s",id,n/2,t.c_str(),t.c_str()+n/2);
    else { std::string f="m"+std::to_string(id)+" "; for(char c: t){ f+=c; if(c=='%') f+='%'; } disk_log((LOG_LEVEL)lv,f.c_str()); }
    { Ev("logd"); }
}
static void thr(){ int v=rnd_int(0,6); { Ev("thr").i("v",v); } set_log_threshold((LOG_LEVEL)v); { Ev("thrd"); } }
static void file(int f){ { Ev("file").i("f",f); } bool ok=f==4?set_log_filename((dir+"/sub").c_str(),"f4"):f==3?set_log_filename((dir+"/sub/").c_str(),"f3"):set_log_filename((dir+(f==2?"/":"")).c_str(),("f"+std::to_string(f)).c_str()); { Ev("filed").b("ok",ok); } }
static void badfile(){ bool ok=rnd_int(0,1)?set_log_filename(rnd_int(0,1)?nullptr:"","x"):set_log_filename(dir.c_str(),rnd_int(0,1)?nullptr:""); Ev("badfile").b("ok",ok); }
static void name(){ const char* p=get_log_filename(); int f=-1; for(int k=0;k<5;k++) if(paths[k]==p) f=k; Ev("name").i("f",f); }
static std::string lines(const std::string& path){
    std::string d; int fd=syscall(SYS_open,path.c_str(),O_RDONLY,0); if(fd>=0){ char b[65536]; ssize_t k; while((k=syscall(SYS_read,fd,b,sizeof b))>0) d.append(b,k); syscall(SYS_close,fd); }
    std::string o="["; size_t i=0; while(i<d.size()){ size_t e=d.find('\n',i); bool whole=e!=std::string::npos; if(!whole) e=d.size(); std::string l=d.substr(i,e-i); i=e+1; if(o.size()>1) o+=",";
        int lv=-1,nm=-1,id=-1,n=-1,good=0; size_t p=l.find(' '); if(whole&&p!=std::string::npos&&l.size()>p+6&&l[p+1]=='['&&l[p+3]==']'&&l[p+4]==' '&&l[p+5]=='['){ const char* L="TDIWEF"; const char* q=strchr(L,l[p+2]); if(q) lv=q-L;
            size_t z=l.find("] m",p+6); if(z!=std::string::npos){ std::string N=l.substr(p+6,z-p-6); for(int k=0;k<5;k++) if(N==names[k]) nm=k; char* end; id=strtol(l.c_str()+z+3,&end,10); if(*end==' '){ std::string T=end+1; n=T.size(); good=T==text(id,n); } } }
        o+="["+std::to_string(lv)+","+std::to_string(nm)+","+std::to_string(id)+","+std::to_string(n)+","+std::to_string(good)+"]"; }
    return o+"]";
}
static void clean(){ const char* sub[]={"/logs","/sub",""}; for(auto s: sub){ std::string d=dir+s; DIR* h=opendir(d.c_str()); if(!h) continue; while(dirent* e=readdir(h)) if(e->d_type==DT_REG) unlink((d+"/"+e->d_name).c_str()); closedir(h); rmdir(d.c_str()); } }
static int nops;
static void body(int s){ for(int k=0;k<nops;k++){ int w=rnd_int(0,9); if(w<7) put(s); else if(w==7) thr(); else if(w==8) file(rnd_int(1,4)); else { if(rnd_int(0,1)) badfile(); else point(); } } }
static void entry(void* p){ body((int)(long)p); }
VS_SCENARIO(logs){
    dir="/tmp/vlog."+std::to_string(getppid()); clean(); mkdir(dir.c_str(),0755); if(chdir(dir.c_str())!=0) finish("chdir");
    nid=0; int nt=param("nt",-1); if(nt<0) nt=rnd_int(1,3); nops=param("ops",3); kopt.open_fail=param("fail",rnd_int(0,3)==0);
    for(int f=1;f<5;f++) paths[f]=dir+(f>=3?"/sub/f":"/f")+std::to_string(f);
    int pre=rnd_int(0,3);
    if(pre&1){ paths[0]=get_log_filename(); name(); if(rnd_int(0,1)) put(0); }
    if(pre&2){ if(rnd_int(0,1)) badfile(); file(rnd_int(1,4)); name(); }
    std::vector<thread_t> ts; for(int s=1;s<=nt;s++) ts.push_back(sys_api::thread_create(entry,(void*)(long)s,names[s]));
    if(rnd_int(0,1)) body(0);
    for(auto t: ts) sys_api::thread_join(t);
    if(paths[0].empty()){ const char* p=get_log_filename(); bool known=false; for(int k=1;k<5;k++) if(paths[k]==p) known=true; if(!known) paths[0]=p; }
    name(); put(0); if(rnd_int(0,1)) put(0);
    std::string o="{\"n\":1,\"files\":["; { EnvScope e; for(int f=0;f<5;f++){ std::string p=paths[f]; if(f==0&&p.empty()){ DIR* h=opendir((dir+"/logs").c_str()); if(h){ while(dirent* d=readdir(h)) if(d->d_type==DT_REG) p=dir+"/logs/"+d->d_name; closedir(h); } } if(f) o+=","; o+=p.empty()?"[]":lines(p); } }
    set_cfg(o+"]}"); Ev("fin"); if(chdir("/")!=0) {} clean();
}
int main(int c,char** v){ return run_main(c,v); }
