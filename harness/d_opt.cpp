#include <cyclone_config.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <wchar.h>
#include <sys/mman.h>
#include "d_util.h"
using namespace vs;
// copies with overlapping ranges are undefined
static void* chk_memcpy(void* d,const void* s,size_t n){ if(n&&(char*)d<(const char*)s+n&&(const char*)s<(char*)d+n&&d!=s) Ev("ub_memcpy").i("n",(long long)n); return memmove(d,s,n); }
#define memcpy chk_memcpy
#include <utility/cyu_simple_opt.h>
#undef INCLUDED_SimpleOpt
#undef SO_STATICBUF
#undef SO_END_OF_OPTIONS
#undef SO_ASSERT
#undef CSimpleOpt
namespace few {
#define SO_MAX_ARGS 8
#include <utility/cyu_simple_opt.h>
}
#undef memcpy
// every text ends where its page ends
template<class T> static T* fenced(size_t n){ size_t b=n*sizeof(T), pg=(b+4095)/4096*4096; if(!pg) pg=4096; char* p=(char*)mmap(nullptr,pg+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(p+pg,4096,PROT_NONE); return (T*)(p+pg-b); }
template<class C> static C* text(const std::string& s){ C* p=fenced<C>(s.size()+1); for(size_t i=0;i<s.size();i++) p[i]=(C)s[i]; p[s.size()]=0; return p; }
template<class C> static std::string js(const C* p){ std::string o="["; for(size_t i=0;p&&p[i];i++){ if(i) o+=","; o+=std::to_string((long)p[i]); } return o+"]"; }
template<class C> static std::string jsv(C** v,int n){ std::string o="["; for(int i=0;i<n;i++){ if(i) o+=","; o+=js(v[i]); } return o+"]"; }
static const char* names[]={"-a","-b","-A","-z","-Z","-","--","-ab","-abc","-ba","--a","--ab","--abc","--abd","--Abd","--zz","open","op","Open","a","-?","-=","--b","---a","-a-b"};
static const char letters[]="aabbABzZ[@-=x";
static std::string word(int n){ std::string s; while(n--) s+=letters[rnd_int(0,12)]; return s; }
static std::string any_name(){ return rnd_int(0,9)?names[rnd_int(0,24)]:"-"+word(rnd_int(0,4)); }
static std::string swap_case(std::string s){ for(auto& c: s) if(rnd_int(0,1)) c=isupper(c)?tolower(c):islower(c)?toupper(c):c; return s; }
static int set_flags(std::string& j){ int f=0; const int bit[]={1,4,8,0x10,0x20,0x40,0x100,0x200,0x400}; const char* nm[]={"exact","short","clump","all","noerr","pedantic","is","il","iw"}; int pr=rnd_int(1,4); j="{"; for(int i=0;i<9;i++){ bool on=rnd_int(0,4)<pr-(i==4); if(i==3) on=rnd_int(0,5)==0; if(on) f|=bit[i]; if(i) j+=","; j+=std::string("\"")+nm[i]+"\":"+(on?"true":"false"); } j+="}"; if(rnd_int(0,1)) f|=2; return f; }
template<class C,class P,class A,A... K> struct Run {
    typedef typename P::SOption Opt; std::vector<std::string> known; std::string tabj; const Opt* tab;
    void table(){ static const char* ty[]={"NONE","SEP","CMB","OPT","MULTI"}; static const A kinds[]={K...}; known.clear(); int n=rnd_int(0,7); Opt* t=fenced<Opt>(n+1); tabj="["; for(int i=0;i<n;i++){ std::string s=any_name(); int k=rnd_int(0,4); known.push_back(s); t[i].nId=rnd_int(0,9); t[i].pszArg=text<C>(s); t[i].nArgType=kinds[k]; if(i) tabj+=","; tabj+="{\"id\":"+std::to_string(t[i].nId)+",\"text\":"+js(t[i].pszArg)+",\"type\":\""+ty[k]+"\"}"; } tabj+="]"; t[n].nId=-1; t[n].pszArg=nullptr; t[n].nArgType=kinds[0]; tab=t; }
    std::string arg(){ std::string s; switch(rnd_int(0,9)){ case 0: return word(rnd_int(0,3)); case 1: return "-"+word(rnd_int(1,5)); case 2: return rnd_int(0,1)?"file":"f.txt"; case 3: s="-"; for(int i=rnd_int(2,4);i--;){ s+=known.empty()||rnd_int(0,3)==0?letters[rnd_int(0,12)]:known[rnd_int(0,(int)known.size()-1)].back(); } return s; }
        s=known.empty()?any_name():known[rnd_int(0,(int)known.size()-1)]; if(rnd_int(0,3)==0) s=swap_case(s); if(rnd_int(0,3)==0&&s.size()>1) s.resize(rnd_int(1,(int)s.size())); if(rnd_int(0,3)==0) s+="="+word(rnd_int(0,3)); else if(rnd_int(0,4)==0) s+=word(rnd_int(1,3)); return s; }
    void go(int max){
        P* p=rnd_int(0,1)?new P():nullptr; int rounds=param("rounds",4);
        for(int r=0;r<rounds;r++){
            table(); std::string fj; int f=set_flags(fj); int n=rnd_int(0,5)==0?rnd_int(45,60):rnd_int(0,12); C** av=fenced<C*>(n); for(int i=0;i<n;i++) av[i]=text<C>(arg()); std::string before=jsv(av,n);
            bool ok=true; if(!p){ p=new P(n,av,tab,f); ok=max==0||n<=max; } else ok=p->Init(n,av,tab,f);
            { Ev("init").i("n",n).i("max",max).raw("fl",fj).raw("tab",tabj).raw("args",before).b("r",ok); }
            if(!ok){ bool x=p->Next(); Ev("next").b("r",x); continue; }
            int extra=rnd_int(0,1), cut=rnd_int(0,3)==0?rnd_int(0,3):100000;
            for(int k=0;;k++){
                if(k==cut){ p->Stop(); { Ev("stop"); } }
                else if(rnd_int(0,11)==0){ table(); f=set_flags(fj); p->SetOptions(tab); p->SetFlags(f); { Ev("set").raw("tab",tabj).raw("fl",fj); } }
                bool x=p->Next(); int e=(int)p->LastError();
                if(!x){ { Ev("next").b("r",false); } { Ev("files").raw("args",jsv(p->Files(),p->FileCount())); } if(p->FileCount()){ int i=rnd_int(0,p->FileCount()-1); if(p->File(i)!=p->Files()[i]) Ev("ub_file"); } if(extra--<=0) break; continue; }
                { Ev("next").b("r",true).i("err",e).i("id",p->OptionId()).raw("text",js(p->OptionText())).b("has",p->OptionArg()!=nullptr).raw("arg",js(p->OptionArg())); }
                if(e==0&&rnd_int(0,1)){ bool multi=false; for(const Opt* o=tab;o->nId>=0;o++) if(o->pszArg==p->OptionText()&&o->nArgType==SO_MULTI_OF()) multi=true;
                    if(multi) for(int q=rnd_int(1,2);q--;){ int m=rnd_int(0,3); C** a=p->MultiArg(m); Ev ev("multi"); ev.i("n",m).b("ok",a!=nullptr); if(a) ev.raw("args",jsv(a,m)); else ev.i("err",(int)p->LastError()); } }
            }
        }
        delete p;
    }
    static A SO_MULTI_OF(){ static const A kinds[]={K...}; return kinds[4]; }
};
VS_SCENARIO(opts_a){ Run<char,CSimpleOptA,ESOArgType,SO_NONE,SO_REQ_SEP,SO_REQ_CMB,SO_OPT,SO_MULTI>().go(0); { Ev("fin"); } finish("end"); }
VS_SCENARIO(opts_w){ Run<wchar_t,CSimpleOptW,ESOArgType,SO_NONE,SO_REQ_SEP,SO_REQ_CMB,SO_OPT,SO_MULTI>().go(0); { Ev("fin"); } finish("end"); }
VS_SCENARIO(opts_m){ Run<char,few::CSimpleOptA,few::ESOArgType,few::SO_NONE,few::SO_REQ_SEP,few::SO_REQ_CMB,few::SO_OPT,few::SO_MULTI>().go(8); { Ev("fin"); } finish("end"); }
int main(int c,char** v){ return run_main(c,v); }
