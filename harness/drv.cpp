#include "drv.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <dirent.h>
#include <limits.h>
#include <alloca.h>
#include <sstream>
#include <fstream>
#include <iostream>
using namespace std;
Ctx* C=0;
static map<str,opfn>& ops(){ static map<str,opfn> m; return m; }
static map<char,projfn>& kinds(){ static map<char,projfn> m; return m; }
Reg::Reg(const char* n, opfn f){ ops()[n]=f; }
static map<char,killfn>& kills(){ static map<char,killfn> m; return m; }
RegKind::RegKind(char k, projfn f, killfn d){ kinds()[k]=f; if(d) kills()[k]=d; }
static volatile char sink;
static void __attribute__((noinline,no_sanitize("address"))) dirty_stack(){
	volatile char* p=(volatile char*)alloca(96*1024); int f=mw_fill; unsigned x=99;
	for(int i=0;i<96*1024;i++){ if(f>=0) p[i]=(char)f; else { x=x*1664525u+1013904223u; p[i]=(char)(x>>24);} } sink=p[5]; }
void lib_enter(){ dirty_stack(); mw_inlib=1; }
void lib_leave(){ mw_inlib=0; }
int esize(int t){ switch(t){case 1:return 1;case 2:case 12:return 2;case 3:case 4:case 13:return 4;case 5:case 14:case 15:return 8;} return -1; }
static str canon(double v){ // m:e with m odd
	char b[64];
	if(v!=v) return "[0,999]"; if(std::isinf(v)) return v>0?"[1,999]":"[-1,999]";
	if(v==0) return std::signbit(v)?"[0,-999]":"[0,0]";
	int e; double m=frexp(v,&e); m=ldexp(m,24); e-=24; long k=(long)m; while(k%2==0){k/=2;e++;}
	snprintf(b,64,"[%ld,%d]",k,e); return b; }
str encf(float v){ return canon(v); }
str encd(double v){ char b[96];
	if(v!=v) return "[0,0,999]"; if(std::isinf(v)) return v>0?"[0,1,999]":"[0,-1,999]";
	if(v==0) return std::signbit(v)?"[0,0,-999]":"[0,0,0]";
	int e; double m=frexp(v,&e); m=ldexp(m,53); e-=53; long k=(long)m; while(k%2==0){k/=2;e++;}
	long s=k<0?-1:1; k*=s; snprintf(b,96,"[%ld,%ld,%d]",s*(k>>27),s*(k&((1L<<27)-1)),e); return b; }
str fix(double v,int bits){ double r=nearbyint(ldexp(v,bits)); if(!(fabs(r)<2e9)) return v!=v?"2000000001":(v>0?"2000000000":"-2000000000"); return to_string((long)r); }
str enc(int t,const void* p,long n){ str o="["; const char* c=(const char*)p; char b[64]; int es=esize(t);
	for(long i=0;i<n;i++){ if(i) o+=","; const void* q=c+i*es;
	switch(t){
	case 1: o+=to_string((int)*(unsigned char*)q); break;
	case 2:{ short v; memcpy(&v,q,2); o+=to_string(v); break;}
	case 12:{ unsigned short v; memcpy(&v,q,2); o+=to_string(v); break;}
	case 3:{ int v; memcpy(&v,q,4); o+=to_string(v); break;}
	case 13:{ unsigned v; memcpy(&v,q,4); snprintf(b,64,"[%u,%u]",v>>16,v&65535u); o+=b; break;}
	case 4:{ float v; memcpy(&v,q,4); o+=encf(v); break;}
	case 5:{ double v; memcpy(&v,q,8); o+=encd(v); break;}
	default:{ uint64_t v; memcpy(&v,q,8); snprintf(b,64,"[%u,%u,%u,%u]",(unsigned)(v>>48),(unsigned)(v>>32&65535),(unsigned)(v>>16&65535),(unsigned)(v&65535)); o+=b; }
	} } return o+"]"; }
vector<str> split(const str& s,char c){ vector<str> v; if(s.empty()) return v; size_t b=0; for(;;){ size_t e=s.find(c,b); v.push_back(s.substr(b,e==str::npos?e:e-b)); if(e==str::npos) break; b=e+1; } return v; }
vector<long> ints(const str& s){ vector<long> r; for(auto&x:split(s,',')) r.push_back(strtol(x.c_str(),0,10)); return r; }
vector<char> dec(int t,const str& txt){ vector<char> out; int es=esize(t);
	for(auto& x: split(txt,',')){ long q[4]={0,0,0,0}; int n=0; for(auto&y:split(x,':')) if(n<4) q[n++]=strtol(y.c_str(),0,10);
	char b[8];
	switch(t){
	case 1: b[0]=(char)q[0]; break;
	case 2: case 12:{ short v=(short)q[0]; memcpy(b,&v,2); break;}
	case 3:{ int v=(int)q[0]; memcpy(b,&v,4); break;}
	case 13:{ unsigned v=(unsigned)(q[0]<<16|q[1]); memcpy(b,&v,4); break;}
	case 4:{ float v; if(q[1]==999) v=q[0]==0?NAN:q[0]*INFINITY; else if(q[0]==0) v=q[1]==-999?-0.0f:0.0f; else v=(float)ldexp((double)q[0],(int)q[1]); memcpy(b,&v,4); break;}
	case 5:{ double v; if(q[2]==999) v=q[1]==0?NAN:q[1]*INFINITY; else if(!q[0]&&!q[1]) v=q[2]==-999?-0.0:0.0; else v=ldexp((double)(q[0]*(1L<<27)+q[1]),(int)q[2]); memcpy(b,&v,8); break;}
	default:{ uint64_t v=(uint64_t)q[0]<<48|(uint64_t)q[1]<<32|(uint64_t)q[2]<<16|(uint64_t)q[3]; memcpy(b,&v,8); }
	}
	out.insert(out.end(),b,b+es); }
	return out; }
str project(const str& h,const Obj& o){ (void)h; auto it=kinds().find(o.kind); if(it==kinds().end()) return "{\"k\":\"?\"}"; return it->second(o); }
static int nfds(){ int n=0; DIR* d=opendir("/proc/self/fd"); if(!d) return -1; while(dirent* e=readdir(d)){ // files of other libraries' own (such as PROJ's database) are not counted
		char b[PATH_MAX]; ssize_t k=readlinkat(dirfd(d),e->d_name,b,sizeof b-1); if(k>0){ b[k]=0; if(!strncmp(b,"/usr/",5)) continue; } n++; } closedir(d); return n; }
static int outfd=-1;
static void emit(const str& s){ size_t o=0; while(o<s.size()){ ssize_t k=write(outfd,s.data()+o,s.size()-o); if(k<=0) _exit(4); o+=k; } }
static str delta(){ str chg="[",del="["; bool f1=true,f2=true;
	for(auto&x:C->objs){ str p=project(x.first,x.second); if(p.empty()) continue; auto it=C->shown.find(x.first);
		if(it==C->shown.end()||it->second!=p){ chg+=(f1?"":",")+str("[\"")+x.first+"\","+p+"]"; f1=false; C->shown[x.first]=p; } }
	for(auto it=C->shown.begin();it!=C->shown.end();){ if(!C->objs.count(it->first)){ del+=(f2?"":",")+str("\"")+it->first+"\""; f2=false; it=C->shown.erase(it);} else ++it; }
	return "\"chg\":"+chg+"],\"del\":"+del+"]"; }
static str unesc(const str& s){ str o; for(size_t i=0;i<s.size();i++){ if(s[i]=='%'&&i+2<s.size()){ o+=(char)strtol(s.substr(i+1,2).c_str(),0,16); i+=2;} else o+=s[i]; } return o; }
static void run_program(const vector<str>& lines,const str& dir){
	Ctx c; C=&c; c.dir=dir;
	int fd0=-1;
	for(size_t n=0;n<lines.size();n++){
		auto w=split(lines[n],' '); c.a.clear(); c.ret.clear();
		for(size_t j=1;j<w.size();j++){ size_t e=w[j].find('='); if(e!=str::npos) c.a[w[j].substr(0,e)]=unesc(w[j].substr(e+1)); }
		if(w[0]=="env"){ mw_place=c.i("place",0); mw_fill=c.i("fill",0xA5); fd0=nfds(); continue; }
		emit("B "+to_string(n)+"\n");
		if(w[0]=="end"){
			for(auto&x:c.objs){ Obj&o=x.second;
				if(o.kind=='H') LIB(delete_hyper_mat((hyper_mat)o.p)); else if(o.kind=='S') LIB(delete_simple_mat((simple_mat)o.p)); else if(o.kind=='D') LIB(delete_S_2D((S_2D)o.p)); else if(o.kind=='B'&&o.heap) mw_free(o.p); else if(kills().count(o.kind)) kills()[o.kind](o); }
			c.objs.clear(); c.r("live",mw_live()); c.r("fds",nfds()-fd0);
		} else {
			auto it=ops().find(w[0]); if(it==ops().end()){ fprintf(stderr,"driver: unknown op %s\n",w[0].c_str()); _exit(3); }
			it->second();
		}
		mw_inlib=0;
		emit("E "+to_string(n)+" {"+(c.ret.empty()?"":"\"ret\":{"+c.ret+"},")+delta()+"}\n");
	}
	emit("D\n");
	_exit(77);
}
extern "C" const char* __asan_default_options(){ return "detect_leaks=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:quarantine_size_mb=16:max_allocation_size_mb=4096:malloc_context_size=4"; }
// driver PROGRAMS OUT SCRATCH SHARD NSHARDS TIMEOUT
int main(int argc,char** argv){
	if(argc<7) return 2;
	ifstream in(argv[1]); int shard=atoi(argv[4]),nsh=atoi(argv[5]),tmo=atoi(argv[6]); str scratch=argv[3];
	outfd=open(argv[2],O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644);
	str line; vector<str> prog; str id; int k=-1;
	auto go=[&](){ if(id.empty()) return; if(k%nsh!=shard) return;
		str dir=scratch+"/p"+id; mkdir(dir.c_str(),0755);
		emit("P "+id+"\n");
		pid_t pid=fork();
		if(pid==0){
			int nul=open("/dev/null",O_RDWR); dup2(nul,0); dup2(nul,1);
			str ef=dir+"/stderr"; int e=open(ef.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); dup2(e,2); close(e); close(nul);
			if(chdir(dir.c_str())) _exit(3);
			struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); rl.rlim_cur=rl.rlim_max=256u<<20; setrlimit(RLIMIT_FSIZE,&rl);
			rl.rlim_cur=rl.rlim_max=tmo; setrlimit(RLIMIT_CPU,&rl); alarm(tmo*4);
			signal(SIGXCPU,SIG_DFL); signal(SIGALRM,SIG_DFL);
			run_program(prog,dir);
		}
		int st=0; waitpid(pid,&st,0);
		str x; if(WIFSIGNALED(st)) x="sig "+to_string(WTERMSIG(st)); else x="exit "+to_string(WEXITSTATUS(st));
		emit("X "+x+"\n");
	};
	while(getline(in,line)){
		if(line.compare(0,5,"prog ")==0){ go(); k++; id=line.substr(5); prog.clear(); }
		else if(!line.empty()) prog.push_back(line);
	}
	go();
	return 0;
}
