// Monitors of LGAR-C: one entry per property.  usage: mon PROPERTY SEED FROM TO WORKDIR [thorough]
#include "scenarios.hpp"
#if !defined(MON_PHYS)&&!defined(MON_IO)&&!defined(MON_API)&&!defined(MON_FUN)
#define MON_FUN
#define MON_PHYS
#define MON_IO
#define MON_API
#endif
#ifdef MON_API
#include "cases_api.hpp"
#endif
#ifdef MON_IO
#include "cases_io.hpp"
#endif
#ifdef MON_FUN
#include "cases_fun.hpp"
#endif
using namespace mon;
#ifdef MON_PHYS

// ---- physics: monitors over generated scenarios
static void c01(Ctx&x){ if(x.idx%20==13) return drive(x,brinkScn(x,120),{mMass}); int k=x.idx%20; if(k==19) drive(x,longScn(x,x.thorough?4000:600),{mMass}); else drive(x,anyScn(x,120,0.5),{mMass}); }
static void c04(Ctx&x){ if(x.idx%20==13) return drive(x,brinkScn(x,120),{mBounds}); int k=x.idx%20; if(k==19) drive(x,longScn(x,x.thorough?4000:600),{mBounds}); else drive(x,anyScn(x,120),{mBounds}); }
static void c05(Ctx&x){ if(x.idx%20==13) return drive(x,brinkScn(x,120),{mProfile}); int k=x.idx%20; if(k==19) drive(x,longScn(x,x.thorough?4000:600),{mProfile}); else drive(x,anyScn(x,120,0.5),{mProfile}); }
static void c06(Ctx&x){ if(x.idx%3==0) drive(x,anyScn(x,120,0),{mSurface}); else lawCase(x,{mSurface}); }
static void c07(Ctx&x){ lawCase(x,{mInf}); }
static void c08(Ctx&x){ lawCase(x,{mBirthRef}); }
static void c09(Ctx&x){ lawCase(x,{mSpeed}); }
static void c10(Ctx&x){ lawCase(x,{mMoveRef}); }
static void c11(Ctx&x){ if(x.idx%5==0) drive(x,anyScn(x,120,0),{mET}); else lawCase(x,{mET}); }
static void c12(Ctx&x){ if(x.idx%20==13) return drive(x,brinkScn(x,120),{mConst}); if(x.idx%20==19) drive(x,longScn(x,x.thorough?4000:600),{mConst}); else drive(x,anyScn(x,120,0.5),{mConst}); }
static void c13(Ctx&x){ lawCase(x,{mPercRef}); }

#endif
struct Entry { const char*id; CaseFn fn; };
static const Entry REG[]={
#ifdef MON_PHYS
{"C01",c01},{"C04",c04},{"C05",c05},{"C06",c06},{"C07",c07},{"C08",c08},{"C09",c09},{"C10",c10},{"C11",c11},{"C12",c12},{"C13",c13},
#endif
#ifdef MON_IO
{"C02",c02},{"C03",c03},{"C14",c14},{"C21",c21},{"C22",c22},{"C26",c26},{"C27",c27},
#endif
#ifdef MON_API
{"C15",c15},{"C16",c16},{"C17",c17},{"C18",c18},{"C19",c19},{"C20",c20},{"C23",c23},{"C24",c24},{"C25",c25},{"C28",c28},{"C29",c29},
#endif
#ifdef MON_FUN
{"C30",c30},{"C31",c31},
#endif
};

static std::string tail(const std::string&path){ std::string s=slurp(path); if(s.size()>20000) s=s.substr(s.size()-20000); std::string pick; std::istringstream is(s); std::string l; // prefer the line that names the failure
  while(std::getline(is,l)){ if(l.find("ERROR: AddressSanitizer")!=std::string::npos||l.find("runtime error:")!=std::string::npos||l.find("Assertion")!=std::string::npos||l.find("WARNING: ThreadSanitizer")!=std::string::npos||l.find("what():")!=std::string::npos||l.find("larger than expected")!=std::string::npos){ pick=l; break; } }
  if(pick.empty()){ size_t e=s.find_last_not_of("\n "); if(e!=std::string::npos){ s.resize(e+1); size_t b=s.rfind('\n'); pick=s.substr(b==std::string::npos?0:b+1); } }
  if(pick.size()>400) pick.resize(400); for(char&c:pick) if((unsigned char)c<32||(unsigned char)c>126) c=' '; return pick; }

static int g_fd=-1;
static void onAbort(int){ char b[160]; Last&l=last(); int n=snprintf(b,sizeof b,"N %s step %ld, %.6g mm/h, free pore space %.6g cm\n",l.kind,l.n,l.P,l.room); (void)!write(g_fd,b,n); signal(SIGABRT,SIG_DFL); raise(SIGABRT); }
int main(int argc,char**argv){
  if(argc<6){ fprintf(stderr,"usage\n"); return 2; }
  std::string prop=argv[1]; uint64_t seed=strtoull(argv[2],0,10); int from=atoi(argv[3]),to=atoi(argv[4]); std::string work=argv[5]; bool th=argc>6&&!strcmp(argv[6],"thorough");
  CaseFn fn=nullptr; for(auto&e:REG) if(prop==e.id) fn=e.fn;
  if(!fn){ fprintf(stderr,"unknown property\n"); return 2; }
  std::map<std::string,long> C; std::map<std::string,double> M; std::set<std::string> H; int samples=0; long cases=0; double scale=getenv("MON_SLOW")?atof(getenv("MON_SLOW")):1;
  for(int k=from;k<to;k++){
    std::string dir=work+"/"+prop+"."+std::to_string(k); mkdir(dir.c_str(),0777); std::string buf; int st=0; bool fin=false;
    for(int attempt=0;attempt<2;attempt++){
      int pfd[2]; if(pipe(pfd)) return 2;
      fflush(stdout);
      pid_t pid=fork();
      if(pid==0){ close(pfd[0]); setpgid(0,0); int o=open((dir+"/out").c_str(),O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0666); dup2(o,1); dup2(o,2); close(o); static char ob[1<<16]; setvbuf(stdout,ob,_IOLBF,sizeof ob); (void)!chdir(dir.c_str());
        struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
        struct rlimit fs={1ul<<30,1ul<<30}; setrlimit(RLIMIT_FSIZE,&fs);
        alarm((unsigned)((th?300:40)*(attempt+1)*scale));
        Ctx x(seed*1000003ull+(uint64_t)k*7919u+hstr(prop)); x.dir=dir; x.prop=prop; x.seed=seed; x.idx=k; x.fd=pfd[1]; x.thorough=th; g_fd=pfd[1]; if(!getenv("MON_TSAN")) signal(SIGABRT,onAbort);
        try{ fn(x); }catch(std::exception&e){ x.viol("exception",std::string("unexpected exception: ")+e.what()+" in "+x.smp); }
        x.flush(); fflush(stdout); _exit(0); }
      close(pfd[1]); buf.clear(); char b[65536]; ssize_t n; while((n=read(pfd[0],b,sizeof b))>0) buf.append(b,n); close(pfd[0]); waitpid(pid,&st,0); kill(-pid,SIGKILL);
      fin=buf.find("\nD done")!=std::string::npos||buf.compare(0,6,"D done")==0;
      if(fin||!(WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM)) break; // a timed out case gets a second, longer chance
    }
    cases++; bool bad=false; std::string note; std::istringstream is(buf); std::string l;
    while(std::getline(is,l)){ if(l.size()<2) continue; std::istringstream ls(l.substr(2)); std::string key; double v;
      switch(l[0]){ case 'V': printf("V %d %s\n",k,l.substr(2).c_str()); bad=true; break; case 'N': note="; "+l.substr(2); break; case 'C': { long q; ls>>key>>q; C[key]+=q; break; } case 'M': ls>>key>>v; if(!M.count(key)||!(M[key]>=v)) M[key]=v; break;
        case 'S': if(samples++<2) printf("S %d %s\n",k,l.substr(2).c_str()); break; case 'H': while(ls>>key) if(H.size()<200000) H.insert(key); break; case 'G': printf("G %d %s\n",k,l.substr(2).c_str()); break; } }
    if(!fin){ bad=true; std::string t=tail(dir+"/out"); std::string what=WIFSIGNALED(st)?(WTERMSIG(st)==SIGALRM?"no progress within the time limit":"terminated by signal "+std::to_string(WTERMSIG(st))):"ended with exit status "+std::to_string(WEXITSTATUS(st)); printf("V %d terminated the model run did not complete: %s; %s%s\n",k,what.c_str(),t.c_str(),note.c_str()); }
    if(bad) printf("B %d %s\n",k,dir.c_str()); else { std::string cmd="rm -rf '"+dir+"'"; (void)!system(cmd.c_str()); }
  }
  printf("C cases %ld\n",cases);
  for(auto&c:C) printf("C %s %ld\n",c.first.c_str(),c.second);
  for(auto&m:M) printf("M %s %.6g\n",m.first.c_str(),m.second);
  int i=0; for(auto&h:H){ printf(i%100?" %s":"H %s",h.c_str()); if(++i%100==0) printf("\n"); }
  if(i%100) printf("\n");
  printf("E\n"); return 0;
}
