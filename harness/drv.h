// Conformance driver: executes a program of public API calls against the real library and logs, after
// every call, the projection of every live object that changed.  No knowledge of expected results.
#pragma once
#include <unistd.h>
#include <string>
#include <map>
#include <vector>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
extern "C" {
#include "memwrap.h"
#include "c_include/hypercv_core.h"
#include "c_include/hypercv_process.h"
#include "algorithm/hypercv_algorithm.h"
#include "highgui/hypercv_gui.h"
}
typedef std::string str;
struct Obj { char kind; void* p; int t; long n; bool heap; long a,b; };
struct Ctx {
	std::map<str,str> a;                 // arguments of the current op
	std::map<str,Obj> objs;              // live handles
	std::map<str,str> shown;             // last projection sent
	str ret;                             // json fields of the result
	str dir;                             // scratch directory of this program
	bool has(const char* k){ return a.count(k)>0; }
	str s(const char* k){ if(!a.count(k)){ fprintf(stderr,"driver: missing arg %s\n",k); _exit(3);} return a[k]; }
	int i(const char* k){ return (int)strtol(s(k).c_str(),0,10); }
	int i(const char* k,int d){ return has(k)?i(k):d; }
	double f(const char* k){ return strtod(s(k).c_str(),0); }
	str path(const char* k){ return dir+"/"+s(k); }
	Obj& o(const char* k){ str h=s(k); if(!objs.count(h)){ fprintf(stderr,"driver: no object %s\n",h.c_str()); _exit(5);} return objs[h]; }
	hyper_mat H(const char* k){ return s(k)=="null"?(hyper_mat)NULL:(hyper_mat)o(k).p; }
	simple_mat S(const char* k){ return s(k)=="null"?(simple_mat)NULL:(simple_mat)o(k).p; }
	void* B(const char* k){ return s(k)=="null"?NULL:o(k).p; }
	void add(const char* k,char kind,void* p,int t=0,long n=0,bool heap=false,long x=0,long y=0){
		if(p==NULL && kind!='V'){ r("null",1); return; } r("null",0); Obj q={kind,p,t,n,heap,x,y}; objs[s(k)]=q; }
	void drop(const char* k){ objs.erase(s(k)); }
	void r(const char* k,long v){ rj(k,std::to_string(v)); }
	void rs(const char* k,const str& v){ rj(k,"\""+v+"\""); }
	void rj(const char* k,const str& j){ ret += (ret.empty()?"":",") + str("\"")+k+"\":"+j; }
};
extern Ctx* C;
typedef void (*opfn)();
struct Reg { Reg(const char* n, opfn f); };
#define OP(name) static void op_##name(); static Reg reg_##name(#name,op_##name); static void op_##name()
void lib_enter(); void lib_leave();
#define LIB(...) do{ lib_enter(); __VA_ARGS__; lib_leave(); }while(0)
// element codecs
int  esize(int t);
str  enc(int t,const void* p,long n);              // json array
std::vector<char> dec(int t,const str& txt);       // from program text
str  encf(float v); str encd(double v);
str  fix(double v,int bits);                       // round(v*2^bits) as json int, 2000000000 when it does not fit
std::vector<str> split(const str& s,char c);
std::vector<long> ints(const str& s);
str project(const str& h,const Obj& o);
typedef str (*projfn)(const Obj&);
typedef void (*killfn)(Obj&);                       // final clean-up of an object of the kind
struct RegKind { RegKind(char k, projfn f, killfn d=0); };
