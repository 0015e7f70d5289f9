#include <array>
#include <cy_core.h>
#include <cy_crypt.h>
#include <cy_network.h>
#include "d_util.h"
#include <sys/socket.h>
#include <arpa/inet.h>
#include <unistd.h>
using namespace cyclone;
using namespace vs;
static std::vector<uint8_t> rb(size_t n){ std::vector<uint8_t> v(n); int k=rnd_int(0,5); for(auto& x: v) x= k==0?0: k==1?0xff: (uint8_t)rnd(); if(k==2&&n) v[rnd_int(0,(int)n-1)]^=1<<rnd_int(0,7); return v; }
static std::string B(const std::vector<uint8_t>& v){ return bytes_json(v.data(),v.size()); }
static std::string H(const std::vector<uint8_t>& v){ static const char d[]="0123456789abcdef"; std::string s; s.reserve(v.size()*2); for(auto x: v){ s+=d[x>>4]; s+=d[x&15]; } return s; }
// the generator of random keys is under the scenario's control (any other generator is as good)
static int key_mode=-1; static int key_pos=0;
extern "C" int rand(void){
    static uint64_t s=88172645463325252ull; if(!active()) { s^=s<<13; s^=s>>7; s^=s<<17; return (int)(s&0x7fffffff); }
    int i=key_pos++; 
    switch(key_mode){ case 0: return 0; case 1: return i==0?1:0; case 2: return 0xff; case 3: return i==15?0x80:0; case 4: return i==0?2:0; case 5: return i%16<8?0:(int)(rnd()&0x7fffffff); default: return (int)(rnd()&0x7fffffff); } }

VS_SCENARIO(aes){
    std::vector<uint8_t> key=rb(16); Rijndael* r=new Rijndael(key.data()); Ev("key").raw("k",B(key));
    std::vector<uint8_t> iv[2]={rb(16),rb(16)}; int n=param("ops",4);
    { Ev("iv").raw("a",B(iv[0])).raw("b",B(iv[1])); }
    std::vector<uint8_t> last;   // ciphertext produced so far, decrypted back in other pieces
    for(int k=0;k<n;k++){
        bool dec=rnd_int(0,1); int w=rnd_int(0,2); size_t nb=rnd_int(0,5)?rnd_int(1,3):0; std::vector<uint8_t> in= dec&&last.size()>=nb*16&&rnd_int(0,2)?std::vector<uint8_t>(last.begin(),last.begin()+nb*16):rb(nb*16);
        bool inplace=rnd_int(0,1); int off=rnd_int(0,3); std::vector<uint8_t> buf(nb*16+32+off,0xA5); uint8_t* out=&buf[16+off]; std::vector<uint8_t> in2=in;
        const uint8_t* src=in2.data(); if(inplace){ memcpy(out,in.data(),in.size()); src=out; } if(nb==0) src=out;
        uint8_t* v= w==2?nullptr:iv[w].data();
        if(dec) r->decrypt(src,out,nb*16,v); else r->encrypt(src,out,nb*16,v);
        bool g=true; for(size_t i=0;i<(size_t)16+off;i++) g=g&&buf[i]==0xA5; for(size_t i=16+off+nb*16;i<buf.size();i++) g=g&&buf[i]==0xA5; if(!inplace) g=g&&in2==in;
        std::vector<uint8_t> o(out,out+nb*16); if(!dec) last.insert(last.begin(),o.begin(),o.end());
        { Ev e(dec?"dec":"enc"); e.i("w",w).raw("in",B(in)).raw("out",B(o)).b("g",g).b("ip",inplace); if(v) e.raw("iv",B(iv[w])); }
        if(rnd_int(0,6)==0&&w<2){ iv[w]=rb(16); Ev("setiv").i("w",w).raw("v",B(iv[w])); }
    }
    if(rnd_int(0,param("long",4))==0){                                                          // a long message, at once and in pieces, in place or not
        size_t nb=rnd_int(0,2)==0?256*rnd_int(1,4)+rnd_int(-1,1):rnd_int(4,1500); auto plain=rb(nb*16), v0=rb(16); std::vector<uint8_t> c1(nb*16),c2(nb*16),back(nb*16); std::vector<uint8_t> v=v0; bool ip=rnd_int(0,1);
        auto go=[&](bool dec,const std::vector<uint8_t>& in,std::vector<uint8_t>& out,size_t pos,size_t len,uint8_t* iv){ const uint8_t* src=in.data()+pos; if(ip){ memcpy(out.data()+pos,src,len); src=out.data()+pos; } if(dec) r->decrypt(src,out.data()+pos,len,iv); else r->encrypt(src,out.data()+pos,len,iv); };
        go(false,plain,c1,0,nb*16,v.data()); auto v1=v; v=v0; for(size_t p=0;p<nb*16;){ size_t l=std::min(nb*16-p,(size_t)16*rnd_int(1,(int)(rnd_int(0,1)?nb:20))); go(false,plain,c2,p,l,v.data()); p+=l; } auto v2=v;
        v=v0; if(rnd_int(0,1)) go(true,c1,back,0,nb*16,v.data()); else for(size_t p=0;p<nb*16;){ size_t l=std::min(nb*16-p,(size_t)16*rnd_int(1,(int)nb)); go(true,c1,back,p,l,v.data()); p+=l; }
        std::string sm="["; for(int k=0;k<4;k++){ size_t b=k==0?0:k==1?nb-1:rnd_int(0,(int)nb-1); uint8_t* pv=b?&c1[(b-1)*16]:v0.data(); sm+=std::string(k?",":"")+"{\"p\":"+bytes_json(pv,16)+",\"i\":"+bytes_json(&plain[b*16],16)+",\"o\":"+bytes_json(&c1[b*16],16)+"}"; }
        Ev("long").i("n",nb).s_("plain",H(plain)).s_("once",H(c1)).s_("pieces",H(c2)).s_("back",H(back)).raw("s",sm+"]").s_("v1",H(v1)).s_("v2",H(v2)).s_("v3",H(v)).s_("lastc",H(std::vector<uint8_t>(c1.end()-16,c1.end())));
    }
    delete r; Ev("fin");
}
static std::string K(const dhkey_t& k){ return bytes_json(k.bytes,16); }
VS_SCENARIO(dh){
    key_mode=rnd_int(0,9); key_pos=0; int what=rnd_int(0,2);
    if(what){ dhkey_t pa,sa,pb,sb,x,y; memset(&x,0xEE,sizeof x); memset(&y,0xEE,sizeof y); DH_generate_key_pair(pa,sa); key_mode=rnd_int(3,9); key_pos=0; DH_generate_key_pair(pb,sb);
        Ev("pair").raw("pub",K(pa)).raw("priv",K(sa)); 
        DH_generate_key_secret(x,sa,pb); DH_generate_key_secret(y,sb,pa); Ev("secret").raw("base",K(pb)).raw("priv",K(sa)).raw("r",K(x)); Ev("same").raw("x",K(x)).raw("y",K(y)); }
    else { dhkey_t a,b,r; memset(&r,0xEE,sizeof r); auto va=rb(16), vb=rb(16); memcpy(a.bytes,va.data(),16); memcpy(b.bytes,vb.data(),16);
        if(rnd_int(0,3)==0){ memset(b.bytes,0xff,16); b.bytes[0]=(uint8_t)(0x5b+rnd_int(0,12)); }      // around the modulus
        if(rnd_int(0,3)==0){ memset(a.bytes,0,16); a.bytes[rnd_int(0,15)]=(uint8_t)rnd_int(0,3); }
        DH_generate_key_secret(r,a,b); Ev("secret").raw("base",K(b)).raw("priv",K(a)).raw("r",K(r)); }
    Ev("fin");
}
VS_SCENARIO(adler){
    // bytes are given as segments [first,step,count]; step 0 or 1 (modulo 256)
    int n=rnd_int(1,4); uint32_t cur=INITIAL_ADLER; 
    if(rnd_int(0,3)==0){ uint32_t lo=rnd_int(0,1)?65520:rnd_int(0,65520), hi=rnd_int(0,1)?65520:rnd_int(0,65520); cur=hi<<16|lo; }
    { Ev("init").i("hi",cur>>16).i("lo",cur&0xffff); }
    for(int k=0;k<n;k++){
        std::vector<uint8_t> d; std::string j="["; size_t total; switch(rnd_int(0,9)){ case 0: total=1; break; case 1: total=rnd_int(2,15); break; case 2: total=16*rnd_int(1,4)+rnd_int(-1,1); break; case 3: total=5552+rnd_int(-1,17); break; case 4: total=5552*rnd_int(1,4)+rnd_int(-2,2); break; case 5: total=rnd_int(1,40000); break; default: total=rnd_int(1,400); }
        bool fine=total<=120&&rnd_int(0,1); bool first=true;
        while(d.size()<total){ size_t c= fine?1:std::min(total-d.size(),(size_t)(rnd_int(0,2)?total:rnd_int(1,3000))); int b=rnd_int(0,2)?(rnd_int(0,3)?255:0):rnd_int(0,255); if(fine) b=rnd_int(0,255); int st=rnd_int(0,2)==0; for(size_t i=0;i<c;i++) d.push_back((uint8_t)(b+st*i)); j+=std::string(first?"":",")+"["+std::to_string(b)+","+std::to_string(st)+","+std::to_string(c)+"]"; first=false; }
        size_t mis=rnd_int(0,7); std::vector<uint8_t> buf(d.size()+mis); memcpy(buf.data()+mis,d.data(),d.size());
        uint32_t r=adler32(cur,buf.data()+mis,d.size()); Ev("sum").raw("d",j+"]").i("hi",r>>16).i("lo",r&0xffff); cur=r;
    }
    Ev("fin");
}
static std::string W(uint64_t v){ uint8_t b[8]; for(int i=0;i<8;i++) b[i]=(uint8_t)(v>>(8*i)); return bytes_json(b,8); }
VS_SCENARIO(xors){
    key_mode=9; XorShift128 s[2]; auto v0=rb(8), v1=rb(8); memcpy(&s[0].seed0,v0.data(),8); memcpy(&s[0].seed1,v1.data(),8);
    if(rnd_int(0,4)==0) s[0].make();
    s[1]=s[0]; { Ev("seed").raw("a",W(s[0].seed0)).raw("b",W(s[0].seed1)); }
    int n=param("ops",5); std::vector<uint8_t> all; XorShift128 s2=s[0]; std::vector<uint8_t> plain=rb(rnd_int(0,70)), work=plain;
    for(int k=0;k<n;k++){ int w=rnd_int(0,1);
        if(rnd_int(0,1)){ uint64_t x=s[w].next(); Ev("next").i("w",w).raw("r",W(x)); }
        else { size_t len=rnd_int(0,2)?rnd_int(0,40):8*rnd_int(0,5); int off=rnd_int(8,15); auto in=rb(len); std::vector<uint8_t> buf(off+len+16,0x5A); if(len) memcpy(&buf[off],in.data(),len);
            xorshift128(&buf[off],len,s[w]); bool g=true; for(int i=0;i<off;i++) g=g&&buf[i]==0x5A; for(size_t i=off+len;i<buf.size();i++) g=g&&buf[i]==0x5A;
            Ev("mask").i("w",w).raw("in",B(in)).raw("out",bytes_json(&buf[off],len)).b("g",g); } 
        { Ev("state").i("w",w).raw("a",W(s[w].seed0)).raw("b",W(s[w].seed1)); } }
    // masking at once, in whole words, and masking twice
    XorShift128 a=s2,b=s2,c=s2; std::vector<uint8_t> x=plain,y=plain; x.push_back(0);y.push_back(0); xorshift128(x.data(),plain.size(),a);
    size_t p=0; while(p<plain.size()){ size_t l=std::min(plain.size()-p,(size_t)8*rnd_int(1,3)); xorshift128(y.data()+p,l,b); p+=l; }
    x.pop_back(); y.pop_back(); std::vector<uint8_t> z=x; z.push_back(0); xorshift128(z.data(),plain.size(),c); z.pop_back();
    { Ev("pieces").raw("in",B(plain)).raw("once",B(x)).raw("pieces",B(y)).raw("twice",B(z)); }
    if(rnd_int(0,3)==0){                                                                        // a long buffer: masked at once, in pieces, twice; nothing but the keystream on zeros
        size_t len=rnd_int(0,1)?512*rnd_int(1,20)+rnd_int(-9,9):rnd_int(1,9000); int off=rnd_int(0,7); auto in=rb(len); XorShift128 p1=s2,p2=s2,p3=s2,p4=s2,p5=s2;
        std::vector<uint8_t> o1(off+len+16,0x77),o2,o3,o4(len+16,0); memcpy(&o1[off],in.data(),len); o2=o1; xorshift128(&o1[off],len,p1); for(size_t q=0;q<len;){ size_t l=std::min(len-q,(size_t)8*rnd_int(1,rnd_int(0,1)?200:4)); xorshift128(&o2[off+q],l,p2); q+=l; }
        o3=o1; xorshift128(&o3[off],len,p3); xorshift128(o4.data(),len,p4); std::vector<uint8_t> ks; for(size_t q=0;q<len;q+=8){ uint64_t x=p5.next(); for(int i=0;i<8;i++) ks.push_back((uint8_t)(x>>(8*i))); } ks.resize(len);
        bool g=o1.size()==off+len+16; for(int i=0;i<off;i++) g=g&&o1[i]==0x77; for(size_t i=off+len;i<o1.size();i++) g=g&&o1[i]==0x77;
        auto cut=[&](const std::vector<uint8_t>& v){ return H(std::vector<uint8_t>(v.begin()+off,v.begin()+off+len)); }; auto st=[&](const XorShift128& x){ return "["+W(x.seed0)+","+W(x.seed1)+"]"; };
        Ev("long").i("n",len).b("g",g).s_("in",H(in)).s_("once",cut(o1)).s_("pieces",cut(o2)).s_("twice",cut(o3)).s_("zeros",H(std::vector<uint8_t>(o4.begin(),o4.begin()+len))).s_("ks",H(ks)).raw("st","["+st(p1)+","+st(p2)+","+st(p3)+","+st(p4)+","+st(p5)+"]");
    }
    Ev("fin");
}
static std::string A(const Address& a){ const sockaddr_in& s=a.get_sockaddr_in(); const uint8_t* p=(const uint8_t*)&s.sin_addr; const uint8_t* q=(const uint8_t*)&s.sin_port;
    return "{\"ip\":\""+std::string(a.get_ip())+"\",\"port\":"+std::to_string(a.get_port())+",\"n\":"+bytes_json(p,4)+",\"np\":"+bytes_json(q,2)+",\"fam\":"+std::to_string(s.sin_family)+"}"; }
VS_SCENARIO(addr){
    std::vector<Address*> all; int n=param("ops",8);
    auto ipv=[&](uint8_t* b){ static const int sp[]={0,1,9,10,99,100,127,128,199,200,254,255}; int m=rnd_int(0,2); for(int i=0;i<4;i++) b[i]=(uint8_t)(m==0?sp[rnd_int(0,11)]:m==1?rnd_int(0,255):rnd_int(0,1)); };
    auto portv=[&]()->uint16_t{ static const int sp[]={0,1,255,256,257,1023,32767,32768,65280,65535}; return (uint16_t)(rnd_int(0,1)?sp[rnd_int(0,9)]:rnd_int(0,65535)); };
    std::vector<std::array<int,5>> vals;
    for(int k=0;k<n;k++){
        int op=rnd_int(0,5); uint8_t b[4]; ipv(b); uint16_t port=portv();
        if(!vals.empty()&&rnd_int(0,1)){ auto& v=vals[rnd_int(0,(int)vals.size()-1)]; if(rnd_int(0,1)) for(int i=0;i<4;i++) b[i]=(uint8_t)v[i]; if(rnd_int(0,1)) port=(uint16_t)v[4]; if(rnd_int(0,2)==0) b[rnd_int(0,3)]^=1; }
        if(op==0){ char t[32]; snprintf(t,sizeof t,"%d.%d.%d.%d",b[0],b[1],b[2],b[3]); Address* a=new Address(t,port); all.push_back(a); Ev("text").raw("b",bytes_json(b,4)).i("port",port).raw("o",A(*a)); }
        else if(op==1){ bool lo=rnd_int(0,1); Address* a=new Address(port,lo); all.push_back(a); Ev("scope").b("lo",lo).i("port",port).raw("o",A(*a)); b[0]=lo?127:0; b[1]=b[2]=0; b[3]=lo; }
        else if(op==2){ sockaddr_in s; memset(&s,0,sizeof s); if(rnd_int(0,1)) for(auto& z: s.sin_zero) z=(uint8_t)rnd(); s.sin_family=AF_INET; memcpy(&s.sin_addr,b,4); s.sin_port=htons(port); Address* a=new Address(s); all.push_back(a); Ev("text").raw("b",bytes_json(b,4)).i("port",port).raw("o",A(*a)); }
        else if(op==3&&!all.empty()){ int i=rnd_int(0,(int)all.size()-1); Address* a; if(rnd_int(0,1)) a=new Address(*all[i]); else { a=new Address("9.8.7.6",5); *a=*all[i]; } all.push_back(a); Ev("copy").i("from",i).raw("o",A(*a)); continue; }
        else { // a connected pair of the simulated network
            port=(uint16_t)rnd_int(1,30000); EnvScope e; int l=::socket(AF_INET,SOCK_STREAM,0); sockaddr_in s; memset(&s,0,sizeof s); s.sin_family=AF_INET; s.sin_addr.s_addr=htonl(INADDR_LOOPBACK); s.sin_port=htons(port); if(::bind(l,(sockaddr*)&s,sizeof s)!=0){ ::close(l); continue; } ::listen(l,4);
            int c=::socket(AF_INET,SOCK_STREAM,0); if(::connect(c,(sockaddr*)&s,sizeof s)!=0){ ::close(l); ::close(c); continue; } int d=::accept(l,0,0);
            sockaddr_in x; socklen_t xl=sizeof x; ::getsockname(c,(sockaddr*)&x,&xl); int lp=ntohs(x.sin_port);
            Address* p=new Address(true,c); Address* q=new Address(false,c); Address* r=new Address(true,d); Address* t=new Address(false,d);
            all.push_back(p); all.push_back(q); all.push_back(r); all.push_back(t);
            Ev("conn").i("port",port).i("cport",lp).raw("peer_c",A(*p)).raw("self_c",A(*q)).raw("peer_d",A(*r)).raw("self_d",A(*t));
            uint8_t lo[4]={127,0,0,1}; for(int i=0;i<4;i++){ vals.push_back({127,0,0,1,(i==0||i==3)?(int)port:lp}); } ::close(c); ::close(d); ::close(l); continue; }
        vals.push_back({b[0],b[1],b[2],b[3],(int)port});
    }
    for(size_t i=0;i<all.size();i++) for(size_t j=0;j<=i;j++) Ev("cmp").i("i",i).i("j",j).b("eq",*all[i]==*all[j]).b("lt",*all[i]<*all[j]).b("gt",*all[j]<*all[i]).b("h",std::hash<Address>()(*all[i])==std::hash<Address>()(*all[j]));
    for(auto a: all) delete a; Ev("fin");
}
int main(int c,char** v){ return run_main(c,v); }
