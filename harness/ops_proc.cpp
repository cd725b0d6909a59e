// process module: type conversion, thresholds, borders, geometry, filters, morphology, statistics, colour, spectra, matrices, vectors
#include "drv.h"
#include <fstream>
using namespace std;
extern "C" { hyper_mat hyper_mat_float2uint(hyper_mat) __attribute__((weak)); }
static double num(const char* k){ auto v=ints(""); vector<str> p=split(C->s(k),','); long m=strtol(p[0].c_str(),0,10),e=p.size()>1?strtol(p[1].c_str(),0,10):0; return ldexp((double)m,(int)e); }
// an argument [m,e]
#define NUM(k) num(k)
OP(convtype){ str f=C->s("fn"); hyper_mat a=C->H("h"),r=0;
#define CT(n) if(f==#n) LIB(r=hyper_mat_##n(a));
	CT(uchar2short) CT(uchar2int) CT(uchar2float) CT(uchar2ushort) CT(float2char) CT(float2uchar) CT(float2short) CT(float2ushort) CT(float2int) CT(ushort2float) if(f=="float2uint"){ LIB(r=hyper_mat_float2uint(a)); }
	C->add("g",'H',r); }
OP(f2uS){ simple_mat a=C->S("h"),r; LIB(r=simple_mat_float2uchar(a)); C->add("g",'S',r); }
OP(atof){ str t=C->s("text"); char* p=(char*)mw_user_malloc(t.size()+1); memcpy(p,t.c_str(),t.size()+1); float v; LIB(v=hypercv_atof(p)); mw_free(p); C->rj("v",encf(v)); }

OP(thresh){ str f=C->s("fn"); simple_mat a=C->S("h"),b=C->S("g"); int th=C->i("th"),mx=C->i("mx"),ty=C->i("type",0);
	if(f=="gen") LIB(hypercv_threshold(a,b,th,mx,ty));
	else if(f=="binary") LIB(hypercv_threshold_binary(a,b,th,mx));
	else if(f=="binary_inv") LIB(hypercv_threshold_binary_inv(a,b,th,mx));
	else if(f=="trunc") LIB(hypercv_threshold_trunc(a,b,th,mx));
	else if(f=="tozero") LIB(hypercv_threshold_tozero(a,b,th,mx));
	else if(f=="tozero_inv") LIB(hypercv_threshold_tozero_inv(a,b,th,mx));
	else if(f=="otsu") LIB(hypercv_threshold_otsu(a,b)); else _exit(3); }
OP(otsu){ simple_mat a=C->S("h"); int v; LIB(v=otsuThreshold(a)); C->r("v",v); }
OP(bint){ int p=C->i("p"),n=C->i("len"),t=C->i("bt"),v; LIB(v=hypercv_border_Interpolate(p,n,t)); C->r("v",v); }
OP(border){ simple_mat a=C->S("h"),r; int t=C->i("top"),b=C->i("bottom"),l=C->i("left"),q=C->i("right"),bt=C->i("bt"),v=C->i("val"); LIB(r=hypercv_copy_make_border(a,t,b,l,q,bt,v)); C->add("g",'S',r); }

OP(flip){ str f=C->s("fn"); simple_mat a=C->S("h"),b=C->S("g"); int c=C->i("code",0);
	if(f=="h") LIB(simple_mat_flip_horizontal(a,b)); else if(f=="v") LIB(simple_mat_flip_vertical(a,b)); else LIB(simple_mat_flip(a,b,c)); }
OP(transS){ simple_mat a=C->S("h"),b=C->S("g"); LIB(simple_mat_transport(b,a)); }
OP(transH){ hyper_mat a=C->H("h"),b=C->H("g"); LIB(hyper_mat_transport(b,a)); }
OP(rotate){ hyper_mat a=C->H("h"),r; double an=NUM("angle"); LIB(r=hyper_mat_rotate(a,an)); C->add("g",'H',r); }

OP(filter2D){ simple_mat a=C->S("h"),b=C->S("g"); float* k=(float*)C->B("k"); int r=C->i("kr"),c=C->i("kc"),bt=C->i("bt"); LIB(hypercv_filter2D(a,b,k,r,c,bt)); }
OP(gkernel){ int n=C->i("n"),kt=C->i("kt"); double s=NUM("sigma"); simple_mat r; LIB(r=gaussian_kernel(n,s,kt)); C->add("g",'S',r); }
OP(gauss){ simple_mat a=C->S("h"),b=C->S("g"); int w=C->i("kw"),h=C->i("kh"),bt=C->i("bt"); double s1=NUM("s1"),s2=NUM("s2"); LIB(hypercv_gaussian_blur(a,b,w,h,s1,s2,bt)); }
OP(gaussk){ simple_mat a=C->S("h"),b=C->S("g"),x=C->S("kx"),y=C->S("ky"); int bt=C->i("bt"); LIB(hypercv_gaussian_blur_with_kernel(a,b,x,y,bt)); }
OP(lap){ simple_mat a=C->S("h"),b=C->S("g"); int k=C->i("ks"),bt=C->i("bt"); LIB(hypercv_laplacian(a,b,k,bt)); }
OP(sobel){ simple_mat a=C->S("h"),b=C->S("g"); int k=C->i("th"),bt=C->i("bt"); LIB(hypercv_sobel(a,b,k,bt)); }
OP(median){ simple_mat a=C->S("h"),b=C->S("g"); int n=C->i("size"); LIB(hypercv_medianblur(a,b,n)); }
OP(meanblur){ simple_mat a=C->S("h"),b=C->S("g"); int n=C->i("size"); LIB(hypercv_meanblur(a,b,n)); }
OP(integral){ simple_mat a=C->S("h"),b=C->S("g"); LIB(hypercv_integral(a,b)); }

OP(erode){ simple_mat a=C->S("h"),b=C->S("g"); S_2D d=(S_2D)C->B("d"); LIB(hypercv_corrosion(a,b,d)); }
OP(dilate){ simple_mat a=C->S("h"),b=C->S("g"); S_2D d=(S_2D)C->B("d"); LIB(hypercv_expend(a,b,d)); }
OP(open){ simple_mat a=C->S("h"),b=C->S("g"); S_2D d=(S_2D)C->B("d"); int n=C->i("it"); LIB(hypercv_open(a,b,d,n)); }
OP(close){ simple_mat a=C->S("h"),b=C->S("g"); S_2D d=(S_2D)C->B("d"); int n=C->i("it"); LIB(hypercv_close(a,b,d,n)); }

OP(meanS){ simple_mat a=C->S("h"); float v; LIB(v=simple_mat_mean(a)); C->rj("v",encf(v)); }
OP(varS){ simple_mat a=C->S("h"); float v; LIB(v=simple_mat_variance(a)); C->rj("v",encf(v)); }
OP(hist){ simple_mat a=C->S("h"); int* b=(int*)C->B("g"); LIB(simple_mat_grayscale_statistics(a,b)); }
OP(entropy){ simple_mat a=C->S("h"); float v; LIB(v=simple_mat_entropy(a)); C->rj("v",encf(v)); }
OP(contrast){ simple_mat a=C->S("h"); float v; LIB(v=simple_mat_contrast_ratio(a)); C->rj("v",encf(v)); }
OP(meanv){ str f=C->s("fn"); void* p=C->B("x"); int n=C->i("n"); double v=0;
	if(f=="double") LIB(v=mean_double((double*)p,n)); else if(f=="uint") LIB(v=mean_uint((unsigned*)p,n)); else if(f=="short") LIB(v=mean_short((short*)p,n));
	else if(f=="ushort") LIB(v=mean_ushort((unsigned short*)p,n)); else if(f=="float") LIB(v=mean_float((float*)p,n)); else if(f=="uchar") LIB(v=mean_uchar((unsigned char*)p,n));
	else if(f=="char") LIB(v=mean_char((char*)p,n)); else if(f=="int") LIB(v=mean_int((int*)p,n)); else _exit(3);
	C->rj("v",encd(v)); }

OP(gray2rgb){ simple_mat a=C->S("h"),r; LIB(r=sm_gray2rgb(a)); C->add("g",'S',r); }
OP(bin2rgb){ simple_mat a=C->S("h"),r; LIB(r=sm_binary2rgb(a)); C->add("g",'S',r); }
OP(rgb2gray){ simple_mat a=C->S("h"),r; int m=C->i("m"); LIB(r=sm_rgb2gray(a,m)); C->add("g",'S',r); }
OP(bgr2rgb){ simple_mat a=C->S("h"),b=C->S("g"); LIB(sm_bgr2rgb(a,b)); }

OP(sam){ float* x=(float*)C->B("x"),*y=(float*)C->B("y"); int n=C->i("n"); float v; LIB(v=spectral_angle_mapper(x,y,n)); C->rj("v",encf(v)); }
OP(eucl){ float* x=(float*)C->B("x"),*y=(float*)C->B("y"); int n=C->i("n"); float v; LIB(v=euclidean_distance(x,y,n)); C->rj("v",encf(v)); }
OP(sammatch){ hyper_mat a=C->H("h"); float* s=(float*)C->B("x"); float t=(float)NUM("th"); simple_mat r; LIB(r=spectrum_SAM_match(a,s,t)); C->add("g",'S',r); }
OP(readspec){ str p=C->path("path"); if(C->i("has",1)){ ofstream f(p,ios::binary); str t=C->s("text"); f.write(t.data(),t.size()); } int n=C->i("n"); float* r; LIB(r=read_spectrum_file(p.c_str(),n)); C->add("g",'B',r,4,n,true); }
OP(meanH){ hyper_mat a=C->H("h"); simple_mat b=C->S("g"); LIB(hyper_mat_mean(a,b)); }
OP(relrad){ hyper_mat a=C->H("h"),r; float* k=(float*)C->B("k"); LIB(r=relative_radiometric_correction(a,k)); C->add("g",'H',r); }
OP(absrad){ hyper_mat a=C->H("h"),r; float* k=(float*)C->B("k"); LIB(r=absolute_radiometric_correction(a,k)); C->add("g",'H',r); }
OP(pyrdown){ simple_mat a=C->S("h"),b=C->S("g"); LIB(hypercv_pyramid_down(a,b)); }
OP(pyrup){ simple_mat a=C->S("h"),b=C->S("g"); LIB(hypercv_pyramid_up(a,b)); }
OP(addS){ str f=C->s("fn"); simple_mat a=C->S("h"),b=C->S("h2"),c=C->S("g"); if(f=="uchar") LIB(simple_mat_addition_uchar(a,b,c)); else LIB(simple_mat_addition_float(a,b,c)); }
OP(logS){ simple_mat a=C->S("h"),b=C->S("g"); LIB(simple_mat_log(a,b)); }

// matrices; ty names the C type of the routine
#define EACH(X) X(char,char) X(uchar,unsigned char) X(short,short) X(ushort,unsigned short) X(int,int) X(uint,unsigned int) X(float,float)
OP(matmul){ str f=C->s("ty"); void*x=C->B("x"),*y=C->B("y"),*z=C->B("z"); int m=C->i("m"),k=C->i("k"),n=C->i("n");
#define MM(T,ct) if(f==#T) LIB(MulMatrix_##T((ct*)x,(ct*)y,(ct*)z,m,k,n));
	EACH(MM) MM(double,double) }
OP(mattrans){ str f=C->s("ty"); void*x=C->B("x"),*z=C->B("z"); int m=C->i("m"),n=C->i("n");
#define MT(T,ct) if(f==#T) LIB(TransMatrix_##T((ct*)x,(ct*)z,m,n));
	EACH(MT) MT(double,double) }
OP(matcorr){ str f=C->s("ty"); void*x=C->B("x"),*y=C->B("y"),*z=C->B("z"); int m=C->i("m"),k=C->i("k"),n=C->i("n");
#define MC(T,ct) if(f==#T) LIB(correlation_matrix_##T((ct*)z,(ct*)x,(ct*)y,m,k,n));
	EACH(MC) }
OP(swaprows){ float* x=(float*)C->B("x"); int m=C->i("m"),n=C->i("n"),a=C->i("r1"),b=C->i("r2"); LIB(swap_rows_float(x,m,n,a,b)); }
OP(identity){ float* x=(float*)C->B("x"); int m=C->i("m"); LIB(set_identity_matrix_float(x,m)); }
OP(invert){ float* x=(float*)C->B("x"),*z=(float*)C->B("z"); int m=C->i("m"); LIB(invert_matrix_float(z,x,m)); }
OP(norm){ float* x=(float*)C->B("x"); int n=C->i("n"); float v; LIB(v=matrix_norm_float(x,n)); C->rj("v",encf(v)); }
OP(sortdown){ float* x=(float*)C->B("x"); int n=C->i("n"); LIB(sort_array_down_float(x,n)); }
OP(qr){ float* a=(float*)C->B("x"),*q=(float*)C->B("q"),*r=(float*)C->B("r"); int m=C->i("m"); LIB(matrix_QR_float(a,q,r,m)); }
OP(eigvec){ float* a=(float*)C->B("x"),*v=(float*)C->B("v"),*e=(float*)C->B("ev"); int m=C->i("m"); LIB(cal_eigen_vector_float(a,v,e,m,m)); }

// the vector container (macros, instantiated for several element types)
struct Vec { int t; void* v; };
struct P3 { unsigned char a,b,c; };
static str projV(const Obj& o){ Vec* q=(Vec*)o.p; if(!q->v) return "{\"k\":\"V\",\"t\":"+to_string(o.t)+",\"d\":[]}";
	size_t sz; char* b=(char*)mw_find((char*)q->v-16,&sz); int es=o.t==99?3:esize(o.t);
	if(!b) return "{\"k\":\"BAD\",\"why\":\"vec\"}"; size_t n=((size_t*)q->v)[-2];
	if(n>(size_t)1<<20 || (char*)q->v+n*es>b+sz) return "{\"k\":\"BAD\",\"why\":\"vecsize\"}";
	str d; if(o.t==99){ d="["; P3* p=(P3*)q->v; for(size_t i=0;i<n;i++) d+=(i?",":"")+to_string(p[i].a+p[i].b*256+p[i].c*65536); d+="]"; } else d=enc(o.t,q->v,n);
	return "{\"k\":\"V\",\"t\":"+to_string(o.t)+",\"d\":"+d+"}"; }
static RegKind kV('V',projV);
template<class T> static T elem(int t){ auto v=dec(t,C->s("x")); T r; memcpy(&r,v.data(),sizeof(T)); return r; }
template<> P3 elem<P3>(int t){ int x=C->i("x"); P3 p={(unsigned char)x,(unsigned char)(x>>8),(unsigned char)(x>>16)}; return p; }
OP(vnew){ Vec* q=new Vec{C->i("t"),0}; C->objs[C->s("h")]=Obj{'V',q,q->t,0,false,0,0}; }
template<class T> static void vecop(Vec* q,const str& f){
	T* v=(T*)q->v;
	if(f=="push"){ T x=elem<T>(q->t); LIB(vector_push_back(v,x)); }
	else if(f=="pop") LIB(vector_pop_back(v));
	else if(f=="erase"){ int i=C->i("i"); LIB(vector_erase(v,i)); }
	else if(f=="free") LIB(vector_free(v));
	else if(f=="init"){ T x=elem<T>(q->t); size_t n=C->i("n"); LIB(vector_init(v,x,n)); }
	else if(f=="size"){ size_t n; LIB(n=vector_size(v)); C->r("v",(long)n); }
	else if(f=="cap"){ size_t n; LIB(n=vector_capacity(v)); C->r("v",n>1000000000?-1:(long)n); }
	else if(f=="empty"){ int n; LIB(n=vector_empty(v)); C->r("v",n!=0); }
	else if(f=="iter"){ T *b,*e; LIB(b=vector_begin(v)); LIB(e=vector_end(v)); C->r("v",b==v?(long)(e-b):-1); }
	else if(f=="get"){ T x; int i=C->i("i"); x=v[i]; str s=q->t==99?to_string(*(unsigned char*)&x+((unsigned char*)&x)[1]*256+((unsigned char*)&x)[2]*65536):enc(q->t,&x,1); C->rj("v",q->t==99?"["+s+"]":s); }
	else if(f=="set"){ T x=elem<T>(q->t); v[C->i("i")]=x; }
	else _exit(3);
	q->v=v; }
OP(vec){ Obj& o=C->o("h"); Vec* q=(Vec*)o.p; str f=C->s("fn");
	switch(q->t){ case 1: vecop<unsigned char>(q,f); break; case 2: vecop<short>(q,f); break; case 3: vecop<int>(q,f); break; case 4: vecop<float>(q,f); break; case 5: vecop<double>(q,f); break; case 14: vecop<long>(q,f); break; case 99: vecop<P3>(q,f); break; default: _exit(3); } }
OP(vdel){ Obj& o=C->o("h"); Vec* q=(Vec*)o.p; C->a["fn"]="free"; op_vec(); delete q; C->drop("h"); }
