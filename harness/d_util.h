#pragma once
#include "vsched.h"
#include <string>
#include <vector>
#include <string.h>
#include <stdio.h>
// Byte strings are reported to the specification as maximal runs [first value, length] where each
// next byte is the previous one plus one modulo 251.  A byte above 250 is never produced by a driver
// and forms a run of its own.  Data in thousands of pieces is none a driver produced: the rest of it
// is told as one run of such bytes.
inline std::string runs(const uint8_t* p,size_t n){
    std::string o="["; size_t i=0; bool first=true; int k=0;
    while(i<n){ if(++k>3000){ o+=",[255,"+std::to_string(n-i)+"]"; break; } size_t j=i+1; if(p[i]<251) while(j<n&&p[j]==(p[j-1]+1)%251) j++; if(!first) o+=","; first=false; o+="["+std::to_string(p[i])+","+std::to_string(j-i)+"]"; i=j; }
    return o+"]";
}
inline std::string runs(const std::string& s){ return runs((const uint8_t*)s.data(),s.size()); }
inline std::string bytes_json(const uint8_t* p,size_t n){ std::string o="["; for(size_t i=0;i<n;i++){ if(i) o+=","; o+=std::to_string(p[i]); } return o+"]"; }
inline std::string pattern(int base,size_t n){ std::string s(n,0); for(size_t i=0;i<n;i++) s[i]=(char)((base+i)%251); return s; }
