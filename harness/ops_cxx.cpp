// Calls on the C++ cube class (mode cxx only).
#include "drv.h"
#include <sys/stat.h>
#include <iostream>
#include <fstream>
#include <sstream>
#ifndef gdal_switch
#define gdal_switch 1
#endif
#include "cxx_include/hypercv_core.hpp"
using namespace std;
typedef hypercv::HyMat HM;
static str bad(const char* w){ return str("{\"k\":\"BAD\",\"why\":\"")+w+"\"}"; }
static bool inblock(const void* p,size_t n){ size_t sz; char* b=(char*)mw_find(p,&sz); return b && (char*)p+n<=b+sz; }
static int fnum(const str& f){ return f=="bsq"?HYPERCV_BSQ:f=="bil"?HYPERCV_BIL:f=="bip"?HYPERCV_BIP:atoi(f.c_str()); }
static str fname(int f){ return f==HYPERCV_BSQ?"bsq":f==HYPERCV_BIL?"bil":f==HYPERCV_BIP?"bip":"?"; }
static str projX(const Obj& o){ HM* m=(HM*)o.p;
	str h="{\"k\":\"X\",\"e\":"+to_string((int)(m->data==NULL))+",\"s\":"+to_string(m->samples)+",\"l\":"+to_string(m->lines)+",\"b\":"+to_string(m->bands)+",\"t\":"+to_string(m->dataType)+",\"ds\":"+to_string(m->dataSize);
	if(m->data==NULL) return m->wavelength?bad("wave left"):h+"}";
	int es=esize(m->dataType); if(es<0) return bad("type");
	if(m->samples<1||m->lines<1||m->bands<1) return bad("dims");
	double n=(double)m->samples*m->lines*m->bands; if(n*es>64e6) return bad("huge");
	if(!inblock(m->data,(size_t)n*es)) return bad("data");
	if(!m->wavelength||!inblock(m->wavelength,4*(size_t)m->bands)) return bad("wave");
	str il; for(int i=0;i<3;i++) il+=m->interleave[i]>='a'&&m->interleave[i]<='z'?m->interleave[i]:'?';
	return h+",\"f\":\""+fname(m->format)+"\",\"il\":\""+il+"\",\"es\":"+to_string(m->elemSize)+",\"w\":"+enc(4,m->wavelength,m->bands)+",\"d\":"+enc(m->dataType,m->data,(long)n)+"}"; }
static void killX(Obj& o){ HM* m=(HM*)o.p; LIB(m->release()); delete m; }
static RegKind kX('X',projX,killX);
static HM* X(const char* k){ return (HM*)C->o(k).p; }
// the object lives in the driver, its storage is the library's
static void addX(const char* k,const HM& m){ Obj q={'X',new HM(m),0,0,false,0,0}; C->objs[C->s(k)]=q; }
static void addfile(const char* k,char kind,const str& path,int t){ if(access(path.c_str(),F_OK)!=0) return; Obj q={kind,new str(path),t,0,false,0,0}; C->objs[C->s(k)]=q; }
static str inner(const str& p){ size_t n=p.find('/'); if(n!=str::npos) mkdir((C->dir+"/"+p.substr(0,n)).c_str(),0755); return C->dir+"/"+p; }
static str img(){ return inner(C->s("stem")+C->s("ext")); }
static str hdr(){ return inner(C->s("stem")+".hdr"); }

OP(newX){ int v=C->i("v"),s=C->i("s"),l=C->i("l"),b=C->i("b"),t=C->i("t"),f=fnum(C->s("fm")); void* d=C->B("data"); float* w=(float*)C->B("w"); HM* m=0;
	if(v==0) LIB(m=new HM()); else if(v==1) LIB(m=new HM(s,l,b,t,f)); else if(v==2) LIB(m=new HM(s,l,b,t,f,d)); else LIB(m=new HM(s,l,b,t,f,d,w));
	addX("h",*m); delete m; if(v>1&&d) C->drop("data"); if(v>2&&w) C->drop("w"); }
OP(createX){ HM* m=X("h"); int v=C->i("v"),s=C->i("s"),l=C->i("l"),b=C->i("b"),t=C->i("t"),f=fnum(C->s("fm")); void* d=C->B("data"); float* w=(float*)C->B("w");
	if(v==0) LIB(m->create()); else if(v==1) LIB(m->create(s,l,b,t)); else if(v==2) LIB(m->create(s,l,b,t,f)); else if(v==3) LIB(m->create(s,l,b,t,f,d)); else LIB(m->create(s,l,b,t,f,d,w));
	if(v>2&&d) C->drop("data"); if(v>3&&w) C->drop("w"); }
OP(copyX){ HM* a=X("h"); HM r; LIB(r=a->copy()); addX("g",r); }
OP(setdataX){ HM* a=X("h"); void* d=C->B("data"); int n=C->i("n"); if(n) LIB(a->CopyData(d,(long)n*a->elemSize)); else LIB(a->CopyData(d)); }
OP(setwaveX){ HM* a=X("h"); float* d=(float*)C->B("w"); int n=C->i("n"); if(n) LIB(a->CopyWaveLength(d,n)); else LIB(a->CopyWaveLength(d)); }
OP(emptyX){ HM* a=X("h"); int e; LIB(e=a->empty()); C->r("v",e!=0); }
OP(convX){ str f=C->s("fn"); HM* a=X("h"); HM r;
	if(f=="bil2bsq") LIB(r=hypercv::bil2bsq(*a)); else if(f=="bil2bip") LIB(r=hypercv::bil2bip(*a)); else if(f=="bsq2bil") LIB(r=hypercv::bsq2bil(*a)); else if(f=="bsq2bip") LIB(r=hypercv::bsq2bip(*a)); else if(f=="bip2bsq") LIB(r=hypercv::bip2bsq(*a)); else if(f=="bip2bil") LIB(r=hypercv::bip2bil(*a)); else _exit(3);
	addX("g",r); }
OP(toX){ HM* a=X("h"); int f=fnum(C->s("fm")); LIB(a->convertTo(f)); }
OP(rangeX){ HM* a=X("h"); HM r; auto v=ints(C->s("rg")); LIB(r=a->range(v[0],v[1],v[2],v[3],v[4],v[5])); addX("g",r); }
OP(releaseX){ HM* a=X("h"); LIB(a->release()); }
OP(delX){ HM* a=X("h"); LIB(a->release()); delete a; C->drop("h"); }
OP(saveX){ HM* a=X("h"); str p=img(),q=hdr(); int t=a->dataType; if(C->has("nohdr")) mkdir(q.c_str(),0755); if(C->i("null")) LIB(a->save(NULL)); else LIB(a->save(p.c_str())); if(C->objs.count(C->s("f"))&&(C->i("null")||!a->data)) return; if(esize(t)<0) t=1; addfile("f",'F',p,t); if(!C->has("nohdr")) addfile("e",'E',q,0); }
OP(openX){ HM* a=X("h"); str p=img(),q=hdr(); LIB(a->open(p.c_str(),q.c_str())); }
OP(readX){ str p=img(),q=hdr(); HM r; LIB(r=hypercv::hmread(p.c_str(),q.c_str())); addX("h",r); }
OP(opensizeX){ HM* a=X("h"); str p=img(); int s=C->i("s"),l=C->i("l"),b=C->i("b"),t=C->i("t"),f=fnum(C->s("fm")); LIB(a->open(p.c_str(),s,l,b,t,f)); }
OP(readsizeX){ HM r; str p=img(); int s=C->i("s"),l=C->i("l"),b=C->i("b"),t=C->i("t"),f=fnum(C->s("fm")); LIB(r=hypercv::hmread(p.c_str(),s,l,b,t,f)); addX("h",r); }
// an image and a header text of the environment's choosing
OP(readtextX){ str p=C->path("path"),q=p+".hdr"; auto v=dec(C->i("t"),C->s("d")); if(C->i("img",1)){ ofstream f(p,ios::binary); f.write(v.data(),v.size()); } if(C->i("hdr",1)){ ofstream f(q,ios::binary); str t=C->s("text"); f.write(t.data(),t.size()); }
	HM r; LIB(r=hypercv::hmread(p.c_str(),q.c_str())); addX("h",r); }
