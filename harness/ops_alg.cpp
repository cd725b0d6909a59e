// algorithm and highgui modules: Fourier, clustering, target detection, shapes, drawing, normalisation, components, edges
#include "drv.h"
using namespace std;
extern "C" { float cal_edge_signal_energy(simple_mat);
// the random numbers of clustering are chosen by the program
static unsigned rnd_state=1;
int __wrap_rand(void){ rnd_state=rnd_state*1103515245u+12345u; return (int)(rnd_state>>1&0x7fffffff); }
void __wrap_srand(unsigned){}
}
static double num(const char* k){ vector<str> p=split(C->s(k),','); long m=strtol(p[0].c_str(),0,10),e=p.size()>1?strtol(p[1].c_str(),0,10):0; return ldexp((double)m,(int)e); }
OP(optdft){ auto v=ints(C->s("n")); str s="["; for(size_t i=0;i<v.size();i++){ int q=(int)v[i],r; LIB(r=get_optimal_DFT_size(q)); s+=(i?",":"")+to_string(r); } C->rj("v",s+"]"); }
OP(dft){ str f=C->s("fn"); simple_mat a=C->S("h"),b=C->S("g"),c=C->S("g2");
	if(f=="gen") LIB(hypercv_dft(a,b,c)); else if(f=="uchar") LIB(hypercv_dft_uchar(a,b,c)); else if(f=="ushort") LIB(hypercv_dft_ushort(a,b,c)); else _exit(3); }
OP(idft){ str f=C->s("fn"); simple_mat a=C->S("h"),b=C->S("h2"),c=C->S("g");
	if(f=="gen") LIB(hypercv_idft(a,b,c)); else if(f=="uchar") LIB(hypercv_idft_uchar(a,b,c)); else if(f=="ushort") LIB(hypercv_idft_ushort(a,b,c)); else _exit(3); }
OP(spectrum){ simple_mat a=C->S("h"),b=C->S("g"); LIB(hypercv_dft_frespectrum(a,b)); }
OP(magnitude){ simple_mat a=C->S("h"),b=C->S("h2"),c=C->S("g"); LIB(hypercv_magnitude(a,b,c)); }
OP(kmeans){ simple_mat a=C->S("h"); int k=C->i("kind"),n=C->i("n"),th=C->i("th"); rnd_state=(unsigned)C->i("seed"); POINT* v=0; POINT z={0,0}; for(int i=0;i<n;i++) LIB(vector_push_back(v,z));
	LIB(hypercv_k_means(a,v,k,th)); str s="["; for(int i=0;i<n;i++) s+=(i?",[":"[")+to_string(v[i].x)+","+to_string(v[i].y)+"]"; C->rj("v",s+"]"); LIB(vector_free(v)); }
OP(cem){ hyper_mat a=C->H("h"); float* x=(float*)C->B("x"); simple_mat r; LIB(r=hyper_mat_cem(a,x)); C->add("g",'S',r); }
OP(hu){ simple_mat a=C->S("h"); double* x=(double*)C->B("g"); LIB(calc_hu_moment(x,a)); }
OP(match){ simple_mat a=C->S("h"),b=C->S("h2"); double v; LIB(v=hypercv_match_shapes(a,b)); C->rj("v",encd(v)); }
OP(draw){ str f=C->s("fn"); simple_mat a=C->S("h"),b=C->S("g"); auto q=ints(C->s("pts")),c=ints(C->s("col")); int sz=C->i("size"); RGB_data col; col.r=c[0]; col.g=c[1]; col.b=c[2];
	size_t n=q.size()/2; POINT* v=(POINT*)malloc(n*sizeof(POINT)+1); for(size_t i=0;i<n;i++){ v[i].x=q[2*i]; v[i].y=q[2*i+1]; }
	if(f=="point") LIB(draw_POINT(a,b,v,(int)n,col,sz)); else { POINT p=v[0],r=v[1]; LIB(draw_line(a,b,p,r,col,sz)); } free(v); }
OP(normz){ str f=C->s("fn"); simple_mat a=C->S("h"),b=C->S("g"); float al=(float)num("alpha"),be=(float)num("beta"); int t=C->i("nt");
	if(f=="gen") LIB(hypercv_normalize(a,b,al,be,t)); else if(f=="uchar") LIB(hypercv_normalize_uchar(a,b,al,be,t)); else if(f=="float") LIB(hypercv_normalize_float(a,b,al,be,t)); else _exit(3); }
OP(equalise){ simple_mat a=C->S("h"),b=C->S("g"); LIB(HisEqualization(a,b)); }
OP(tension){ hyper_mat a=C->H("h"),b=C->H("g"); LIB(hyper_mat_linear_tension(a,b)); }
OP(pca){ hyper_mat a=C->H("h"),b=C->H("g"); int n=C->i("it"); LIB(hyper_mat_pca(a,b,n)); }
OP(edge){ simple_mat a=C->S("h"); float v; LIB(v=cal_edge_signal_energy(a)); C->rj("v",encf(v)); }
