#include "drv.h"
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
using namespace std;
static str il3(const char* p){ str o; for(int i=0;i<3;i++){ unsigned char c=p[i]; if(c>=33&&c<127&&c!='"'&&c!='\\') o+=c; else { char b[8]; snprintf(b,8,"<%02x>",c); o+=b; } } return o; }
static bool inblock(const void* p,size_t n){ size_t sz; char* b=(char*)mw_find(p,&sz); return b && (char*)p+n<=b+sz; }
static str bad(const char* w){ return str("{\"k\":\"BAD\",\"why\":\"")+w+"\"}"; }
static str projH(const Obj& o){ HyperMat* m=(HyperMat*)o.p;
	if(!mw_is_block(m)) return bad("header"); 
	int es=esize(m->data_type); if(es<0) return bad("type");
	if(m->samples<1||m->lines<1||m->bands<1) return bad("dims");
	double n=(double)m->samples*m->lines*m->bands; if(n*es>64e6) return bad("huge");
	if(!inblock(m->data,(size_t)n*es)) return bad("data");
	if(m->wavelength && !inblock(m->wavelength,4*(size_t)m->bands)) return bad("wave");
	str s="{\"k\":\"H\",\"s\":"+to_string(m->samples)+",\"l\":"+to_string(m->lines)+",\"b\":"+to_string(m->bands)+",\"t\":"+to_string(m->data_type)+",\"il\":\""+il3(m->interleave)+"\",\"al\":"+to_string((int)((uintptr_t)m->data%64==0&&(uintptr_t)m->wavelength%64==0))
	+",\"w\":"+enc(4,m->wavelength,m->wavelength?m->bands:0)+",\"d\":"+enc(m->data_type,m->data,(long)n)+"}"; return s; }
static RegKind kH('H',projH);
static str projS(const Obj& o){ SIMPLE_MAT* m=(SIMPLE_MAT*)o.p;
	if(!mw_is_block(m)) return bad("header");
	int es=esize(m->data_type); if(es<0) return bad("type");
	if(m->rows<1||m->cols<1||m->channels<1) return bad("dims");
	double n=(double)m->rows*m->cols*m->channels; if(n*es>64e6) return bad("huge");
	if(!inblock(m->data,(size_t)n*es)) return bad("data");
	size_t sz; char* blk=(char*)mw_find(m->data,&sz);
	str s="{\"k\":\"S\",\"r\":"+to_string(m->rows)+",\"c\":"+to_string(m->cols)+",\"t\":"+to_string(m->data_type)+",\"ch\":"+to_string(m->channels)+",\"es\":"+to_string(m->elem_size)+",\"ext\":"+to_string((int)(o.a && m->data==(void*)o.a))
	+",\"al\":"+to_string((int)(o.a!=0 || (uintptr_t)m->data%64==0))+",\"d\":"+enc(m->data_type,m->data,(long)n)+"}"; (void)blk; return s; }
static RegKind kS('S',projS);
static str projB(const Obj& o){ return "{\"k\":\"B\",\"t\":"+to_string(o.t)+",\"d\":"+enc(o.t,o.p,o.n)+"}"; }
static RegKind kB('B',projB);
static str projD(const Obj& o){ STRUCT_2D* s=(STRUCT_2D*)o.p; if(!mw_is_block(s)) return bad("header");
	if(s->width<1||s->height<1||(double)s->width*s->height>1e6) return bad("dims");
	return "{\"k\":\"D\",\"wd\":"+to_string(s->width)+",\"ht\":"+to_string(s->height)+",\"d\":"+enc(1,s->data,(long)s->width*s->height)+"}"; }
static RegKind kD('D',projD);
// raw data file: elements of type t
static str projF(const Obj& o){ str path=*(str*)o.p; ifstream f(path,ios::binary); if(!f) return bad("nofile");
	str c((istreambuf_iterator<char>(f)),istreambuf_iterator<char>()); int es=esize(o.t);
	return "{\"k\":\"F\",\"t\":"+to_string(o.t)+",\"rem\":"+to_string(c.size()%es)+",\"d\":"+enc(o.t,c.data(),c.size()/es)+"}"; }
static RegKind kF('F',projF);
static str trim(const str& s){ size_t a=s.find_first_not_of(" \t\r\n"),b=s.find_last_not_of(" \t\r\n"); return a==str::npos?"":s.substr(a,b-a+1); }
// header file, read by a parser of our own
static str projE(const Obj& o){ str path=*(str*)o.p; ifstream f(path,ios::binary); if(!f) return bad("nofile");
	str line; if(!getline(f,line)||trim(line)!="ENVI") return bad("magic");
	map<str,str> kv; map<str,int> cnt;
	while(getline(f,line)){ if(trim(line).empty()) continue; size_t e=line.find('='); if(e==str::npos) return bad("line");
		str k=trim(line.substr(0,e)),v=line.substr(e+1);
		if(v.find('{')!=str::npos) while(v.find('}')==str::npos&&getline(f,line)) v+=line;
		kv[k]=trim(v); cnt[k]++; }
	auto num=[&](const char* k){ if(cnt[k]!=1) return str("-1"); char* e; long v=strtol(kv[k].c_str(),&e,10); if(*e||e==kv[k].c_str()) return str("-1"); return to_string(v); };
	str il=cnt["interleave"]==1?kv["interleave"]:"?"; for(auto&c:il) if(c=='"'||c=='\\'||(unsigned char)c<32||(unsigned char)c>126) c='?';
	str w="[]"; str hasw="0"; str v=kv["wavelength"]; size_t a=v.find('{'),b=v.find('}');
	if(cnt["wavelength"]==1&&a!=str::npos&&b!=str::npos){ hasw="1"; str body=v.substr(a+1,b-a-1); w="["; bool first=true;
		for(auto&x:split(body,',')){ str t=trim(x); char* e; float q=strtof(t.c_str(),&e); w+=(first?"":",")+(t.empty()||*e?str("[7,777]"):encf(q)); first=false; } w+="]"; }
	return "{\"k\":\"E\",\"s\":"+num("samples")+",\"l\":"+num("lines")+",\"b\":"+num("bands")+",\"t\":"+num("data type")+",\"il\":\""+il+"\",\"hasw\":"+hasw+",\"w\":"+w+"}"; }
static RegKind kE('E',projE);
static void addfile(const char* k,char kind,const str& path,int t){ if(access(path.c_str(),F_OK)!=0) return; Obj q={kind,new str(path),t,0,false,0,0}; C->objs[C->s(k)]=q; }

OP(buf){ int t=C->i("t"); auto v=dec(t,C->has("d")?C->s("d"):""); bool heap=C->i("heap",0); size_t n=v.size(); void* p=heap?mw_user_malloc(n):malloc(n); memcpy(p,v.data(),n); C->add("h",'B',p,t,n/esize(t),heap); C->ret=""; }
OP(freebuf){ Obj o=C->o("h"); if(o.heap) mw_free(o.p); else free(o.p); C->drop("h"); }
OP(createH){ void* d=C->B("data"); float* w=(float*)C->B("w"); hyper_mat m; str il=C->s("il"); char il4[4]={il[0],il[1],il[2],0}; int s=C->i("s"),l=C->i("l"),b=C->i("b"),t=C->i("t");
	if(C->i("plain")) LIB(m=create_hyper_mat(s,l,b,t,il4)); else LIB(m=create_hyper_mat_with_data(s,l,b,t,il4,d,w)); C->add("h",'H',m); }
OP(deleteH){ hyper_mat m=C->H("h"); LIB(delete_hyper_mat(m)); if(m) C->drop("h"); }
OP(copyH){ hyper_mat m=C->H("h"),r; LIB(r=hyper_mat_copy(m)); C->add("g",'H',r); }
OP(copytoH){ hyper_mat a=C->H("h"),b=C->H("g"); LIB(hyper_mat_copy_to(a,b)); }
OP(copywaveH){ hyper_mat a=C->H("h"),b=C->H("g"); LIB(hyper_mat_copy_wavelength(a,b)); }
OP(emptyH){ hyper_mat a=C->H("h"); int e; LIB(e=hyper_mat_empty(a)); C->r("v",e); }
// what the call prints on the standard output, read back as values
OP(showinfoH){ hyper_mat a=C->H("h"); fflush(stdout); str p="_stdout"; int keep=dup(1),fd=open(p.c_str(),O_RDWR|O_CREAT|O_TRUNC,0644); dup2(fd,1); close(fd);
	LIB(hyper_mat_showinfo(a)); fflush(stdout); dup2(keep,1); close(keep);
	ifstream f(p); str t((istreambuf_iterator<char>(f)),istreambuf_iterator<char>()); f.close(); unlink(p.c_str());
	if(t.find("NULL")!=str::npos&&t.find("samples")==str::npos){ C->r("none",1); return; }
	auto num=[&](const char* k){ size_t q=t.find(k); return q==str::npos?str("-999999"):to_string(atol(t.c_str()+q+strlen(k))); };
	C->rj("v","["+num("samples is ")+","+num("lines is ")+","+num("bands is ")+","+num("data type is ")+"]");
	size_t q=t.find("interleave is "); C->rj("il",q==str::npos?"[]":"["+to_string((unsigned char)t.c_str()[q+14])+","+to_string((unsigned char)t.c_str()[q+15])+","+to_string((unsigned char)t.c_str()[q+16])+"]");
	str w; q=t.find("wavelength is"); if(q!=str::npos){ const char* c=t.c_str()+q+13; char* e; for(;;){ while(*c==' '||*c=='\n'||*c==',') c++; float v=strtof(c,&e); if(e==c) break; w+=(w.empty()?"":",")+encf(v); c=e; } } C->rj("w","["+w+"]"); }
OP(convH){ str f=C->s("fn"); hyper_mat a=C->H("h"),r; 
	if(f=="bil2bsq") LIB(r=bil2bsq(a)); else if(f=="bil2bip") LIB(r=bil2bip(a)); else if(f=="bsq2bil") LIB(r=bsq2bil(a)); else if(f=="bsq2bip") LIB(r=bsq2bip(a)); else if(f=="bip2bsq") LIB(r=bip2bsq(a)); else if(f=="bip2bil") LIB(r=bip2bil(a)); else _exit(3);
	C->add("g",'H',r); }
OP(convert2H){ str f=C->s("il"); hyper_mat a=C->H("h"); if(f=="bsq") LIB(convert2bsq(a)); else if(f=="bil") LIB(convert2bil(a)); else if(f=="bip") LIB(convert2bip(a)); else _exit(3); }
OP(rangeH){ hyper_mat a=C->H("h"),r; auto v=ints(C->s("rg")); LIB(r=hyper_mat_get_range(a,v[0],v[1],v[2],v[3],v[4],v[5])); C->add("g",'H',r); }
OP(reshape){ hyper_mat a=C->H("h"); simple_mat r; int x=C->i("r"),y=C->i("c"); LIB(r=reshape_hypermat_2_simplemat(a,x,y)); C->add("g",'S',r); }
OP(band2S){ hyper_mat a=C->H("h"); simple_mat m=C->S("g"); int b=C->i("b"); LIB(hyper_mat_2_simple_mat(a,m,b)); }
OP(S2band){ hyper_mat a=C->H("h"); simple_mat m=C->S("g"); int b=C->i("b"); LIB(simple_mat_2_hyper_mat(a,m,b)); }
OP(splice){ hyper_mat a=C->H("h"),b=C->H("g"); int k=C->i("at"); LIB(hyper_mat_splicing(a,b,k)); }
OP(saveH){ hyper_mat a=C->H("h"); str p=C->path("path"); LIB(hmsave(p.c_str(),a)); int t=a->data_type; if(esize(t)<0) t=1; addfile("f",'F',p,t); addfile("e",'E',p+".hdr",0); }
OP(writehdr){ str p=C->path("path"); float* w=(float*)C->B("w"); str il=C->s("il"); char i3[4]={il[0],il[1],il[2],0}; int s=C->i("s"),l=C->i("l"),b=C->i("b"),t=C->i("t"); LIB(writehdr(p.c_str(),s,l,b,t,i3,w)); addfile("e",'E',p+".hdr",0); }
OP(loadH){ str p=C->path("path"),q=p+".hdr"; hyper_mat m; LIB(m=hmread_with_hdr(p.c_str(),q.c_str())); C->add("h",'H',m); }
OP(loadsizeH){ str p=C->path("path"); hyper_mat m; str il=C->s("il"); char i3[4]={il[0],il[1],il[2],0}; int s=C->i("s"),l=C->i("l"),b=C->i("b"),t=C->i("t"); LIB(m=hmread_with_size(p.c_str(),s,l,b,t,i3)); C->add("h",'H',m); }
// write a data file and a header text of the environment's choosing, then load it
OP(loadtext){ str p=C->path("path"),q=p+".hdr"; auto v=dec(C->i("t"),C->s("d")); if(C->i("img",1)){ ofstream f(p,ios::binary); f.write(v.data(),v.size()); } if(C->i("hdr",1)){ ofstream f(q,ios::binary); str t=C->s("text"); f.write(t.data(),t.size()); }
	hyper_mat m; LIB(m=hmread_with_hdr(p.c_str(),q.c_str())); C->add("h",'H',m); }
OP(putfile){ str p=C->path("path"); auto v=dec(C->i("t"),C->s("d")); ofstream f(p,ios::binary); f.write(v.data(),v.size()); f.close(); addfile("f",'F',p,C->i("t")); }

// environment: the file keeps only its first n elements, as after a crash of the process that was writing it
OP(cutfile){ Obj q=C->o("f"); if(truncate(((str*)q.p)->c_str(),(long)C->i("n")*esize(q.t))) C->ret="{\"v\":-1}"; }
OP(createS){ simple_mat m; int r=C->i("r"),c=C->i("c"),t=C->i("t"),ch=C->i("ch"); str b=C->s("data");
	if(b=="null"){ if(C->i("plain")) LIB(m=create_simple_mat(r,c,t,ch)); else LIB(m=create_simple_mat_with_data(r,c,t,ch,NULL)); C->add("h",'S',m); }
	else { void* p=C->B("data"); LIB(m=create_simple_mat_with_data(r,c,t,ch,p)); C->add("h",'S',m); C->objs[C->s("h")].a=(long)p; C->drop("data"); } }
// environment action: the caller fills the pixels of a mat it owns
OP(fillS){ simple_mat m=C->S("h"); auto v=dec(m->data_type,C->s("d")); memcpy(m->data,v.data(),v.size()); }
OP(fillH){ hyper_mat m=C->H("h"); auto v=dec(m->data_type,C->s("d")); memcpy(m->data,v.data(),v.size()); }
OP(deleteS){ simple_mat m=C->S("h"); LIB(delete_simple_mat(m)); if(m) C->drop("h"); }
OP(copyS){ simple_mat m=C->S("h"),r; LIB(r=simple_mat_copy(m)); C->add("g",'S',r); }
OP(readS){ str p=C->path("path"); simple_mat m; int r=C->i("r"),c=C->i("c"),t=C->i("t"),ch=C->i("ch"); LIB(m=smread(p.c_str(),r,c,t,ch)); C->add("h",'S',m); C->objs[C->s("h")].a= m && mw_is_block(m->data) ? (long)m->data : 0; }
OP(writebmp){ str p=C->path("path"); simple_mat m=C->S("h"); LIB(smwrite_bmp(p.c_str(),m)); addfile("f",'F',p,1); }
OP(readbmp){ str p=C->path("path"); simple_mat m; LIB(m=smread_bmp(p.c_str())); C->add("h",'S',m); }
OP(createD){ int w=C->i("wd"),h=C->i("ht"); str b=C->s("data"); S_2D s; if(b=="null") LIB(s=create_2D_struct(w,h)); else { void* p=C->B("data"); LIB(s=create_2D_struct_with_data(w,h,p)); } C->add("h",'D',s); }
OP(deleteD){ S_2D s=(S_2D)C->B("h"); LIB(delete_S_2D(s)); if(s) C->drop("h"); }
