// Scenario builders shared by the checks.
#pragma once
#include "monitors.hpp"
namespace mon {
inline void temps(Rng&r,const Cfg&c,Forc&f,int block){ std::vector<double> T; for(size_t i=0;i<f.size();i++){ if(i%block==0) T=rndTemp(r,c); f.T.push_back(T); } }
// column whose parameters are set through the BMI instead of the soil table
inline void recalibrate(Rng&r,Scn&q){
  q.w=q.c; q.w.calib=true; q.cal=true; int mode=q.c.kind[1]-'0'; int nl=q.c.nl();
  if(nl>1&&r.p(0.3)) q.w.type[r.i(1,nl-1)]=q.w.type[0];      // layers may share a soil type before calibration
  q.c.soils.clear(); for(int l=0;l<nl;l++){ Soil s=r.p(0.15)?q.w.soil(l+1):rndSoil(r,mode); s.name="L"+std::to_string(l+1); q.c.soils.push_back(s); q.c.type[l]=l+1; }
  if(r.p(0.7)) q.c.fc=r.lu(10.3,516.6);
  if(r.p(0.7)) q.c.pond_max=r.p(0.3)?0.0:r.u(0,1.1);
}
inline Scn scn(Ctx&x,const GenOpt&o,int n,double calP=0.08,int pat=-1){
  Scn q; q.c=rndCfg(x.r,o); q.f=rndForc(x.r,q.c,n,pat); if(q.c.sft) temps(x.r,q.c,q.f,x.r.i(3,15));
  if(x.r.p(calP)) recalibrate(x.r,q); else q.w=q.c; return q;
}
// exact ties: a configured quantity is made equal, to the last bit, to a value that the same run reaches on its own
inline bool tie(Ctx&x,Scn&q){
  if(q.cal||q.f.size()<3) return false; int what=x.r.i(0,1); Scn t=q; if(what==0) t.c.pond_max=t.w.pond_max=20; 
  std::vector<std::pair<size_t,double>> v;
  try{ std::string p=write_cfg(t.c,x.dir,"tie"); Run r; r.init(t.c,p); for(size_t i=0;i<q.f.size();i++){ if(t.c.sft) r.temp(q.f.T[i]); r.step(q.f.P[i],q.f.E[i]); Snap s=observe(r.b); if(what==0){ if(s.pond>1e-6&&s.pond<20) v.push_back({i,s.pond}); } else for(auto&w:s.f) if(w.layer==1&&!w.bot&&w.depth>5) v.push_back({i,w.depth}); } r.fin(); }catch(...){ return false; }
  if(v.empty()) return false; auto c=v[x.r.next()%std::min<size_t>(v.size(),12)]; if(what==0) q.c.pond_max=q.w.pond_max=c.second; else { q.c.thick[0]=q.w.thick[0]=c.second; if(q.c.sft){ q.c.soil_z.clear(); addTemp(x.r,q.c); q.w.soil_z=q.c.soil_z; q.f.T.clear(); temps(x.r,q.c,q.f,5); } } x.cnt(what==0?"tied_pond_limits":"tied_layer_bottoms"); return true;
}
// recorded hourly weather of the repository's two field sites, on their columns or on a generated one
inline bool field(Ctx&x,Scn&q,int n){
  const char*root=getenv("MON_REPO"); if(!root||q.cal) return false; double per=q.c.fr_s/3600; int hours=(int)std::ceil(n*per)+1; bool bush=x.r.p(0.5); std::ifstream in(std::string(root)+"/forcing/forcing_data_resampled_uniform_"+(bush?"Bushland":"Phillipsburg")+".csv"); std::vector<double> P,E; std::string l; std::getline(in,l);
  while(std::getline(in,l)){ size_t a=l.find(','),b=l.find(',',a+1); if(a==std::string::npos||b==std::string::npos) continue; double p=atof(l.c_str()+a+1),e=atof(l.c_str()+b+1); if(!(p>=0&&e>=0&&p<1000&&e<100)) return false; P.push_back(p); E.push_back(e); }
  if((int)P.size()<hours+1) return false; int at=x.r.i(0,(int)P.size()-hours-1); for(int i=0;i<n;i++){ int k=at+(int)(i*per); q.f.P[i]=P[k]; q.f.E[i]=E[k]; }
  if(!q.c.sft&&x.r.p(0.6)){ q.c.soils.clear(); q.c.type.clear(); q.c.thick=bush?std::vector<double>{18,76,135}:std::vector<double>{44,131,25}; for(int l=0;l<3;l++){ q.c.soils.push_back(textures()[(bush?15:12)+l]); q.c.type.push_back(l+1); } q.c.init_psi=2000; q.c.pond_max=bush?0:2; q.c.kind="m0"; q.w=q.c; }
  x.cnt("field_runs"); return true; }
// a shallow column of coarse soils dried by strong evaporation to its residual moisture, with showers in between
inline void parched(Ctx&x,Scn&q){
  if(q.cal) return; Rng&r=x.r; for(auto&s:q.c.soils) if(r.p(0.8)){ s.n=r.u(2.7,3.18); s.alpha=r.lu(0.08,0.3); s.Ks=r.lu(0.5,30); }
  q.c.wp=r.p(0.5)?15495:30000; q.c.init_psi=r.p(0.5)?r.lu(3e3,3e4):r.lu(10,3000); for(auto&t:q.c.thick) t=r.lu(5,14); if(q.c.sft){ q.c.soil_z.clear(); addTemp(r,q.c); q.f.T.clear(); temps(r,q.c,q.f,5); }
  double e=r.u(2,5),hi=r.lu(0.5,30),f=r.u(0.1,0.4); for(size_t i=0;i<q.f.size();i++){ q.f.E[i]=e; q.f.P[i]=r.p(f)?hi*r.lu(1e-4,1):0; } q.w=q.c; x.cnt("parched_runs"); }
// a front dried, by choice of the last evaporation, to the very brink of the moisture below it, next to a layer boundary, with new rain above it
inline bool brink(Ctx&x,Scn&q){
  Rng&r=x.r; int n=q.f.size(); auto mob=[](const Snap&s){ int m=0; for(auto&w:s.f) if(!w.bot) m++; return m; };
  auto upto=[&](int k,double E){ Run R; R.init(q.c,write_cfg(q.c,x.dir,"brink")); for(int i=0;i<k;i++) R.step(q.f.P[i],q.f.E[i]); if(E>=0) R.step(0,E); return observe(R.b); };
  try{
    Snap pv; int k=-1; { Run R; R.init(q.c,write_cfg(q.c,x.dir,"brink")); for(int i=0;i<std::min(n,80);i++){ R.step(q.f.P[i],q.f.E[i]); Snap s=observe(R.b); if(i&&q.f.P[i]==0&&!pv.f[0].bot&&mob(s)<mob(pv)&&s.D==0&&s.f.size()<pv.f.size()&&r.p(0.6)){ k=i; break; } pv=s; } }
    if(k<0) return false;
    if(q.c.nl()>1) q.c.thick[0]=std::max(4.0,pv.f[0].depth*(1+r.lu(1e-5,0.05)));
    int m=mob(upto(k,-1)); auto gone=[&](double E){ return mob(upto(k,E))<m; }; double lo=0,hi=2*q.f.E[k]; if(gone(0)||!gone(hi)){ q.w=q.c; return false; }
    int nb=r.p(0.7)?60:r.i(10,60); for(int j=0;j<nb;j++){ double v=(lo+hi)/2; if(v==lo||v==hi) break; (gone(v)?hi:lo)=v; }
    q.f.E[k]=lo; double P=r.lu(0.5,30); for(int i=k+1;i<n;i++){ if(i<k+4) q.f.P[i]=P; if(i<k+30) q.f.E[i]=0; }
  }catch(std::exception&){ q.w=q.c; return false; }
  q.w=q.c; x.cnt("brink_runs"); return true; }
inline Scn brinkScn(Ctx&x,int n){ Rng&r=x.r; Scn q; for(int t=0;t<4;t++){ GenOpt o; o.single=r.p(0.5); o.rareP=0; o.nl=r.i(2,4); if(r.p(0.15)) o.nl=1; if(r.p(0.3)) o.soilMode=2; q=Scn(); q.c=rndCfg(r,o); q.f=rndForc(r,q.c,n,r.pick(std::vector<int>{0,1,6,8,9})); for(auto&e:q.f.E) if(e==0) e=r.lu(0.01,1); q.w=q.c; if(brink(x,q)) break; } return q; }
// a few histories of months to years, so that what only builds up slowly is seen as well
inline int span(Ctx&x,int n){ if(n<40||getenv("MON_SMALL")||getenv("MON_TSAN")) return n; if(x.idx%2000==1777){ x.cnt("year_long_runs"); return 9000; } if(x.idx%400==177){ x.cnt("months_long_runs"); return 1800; } return n; }
// general mix: any number of internal steps per Update, freeze-thaw, calibration, extreme soils
inline Scn anyScn(Ctx&x,int n,double single=0.4){ n=span(x,n); GenOpt o; o.single=x.r.p(single); o.sftP=0.15; if(x.r.p(0.12)) o.soilMode=2; Scn q=scn(x,o,n); if(x.r.p(0.06)) tie(x,q); else if(x.r.p(0.06)) field(x,q,n); else if(x.r.p(0.025)) parched(x,q); return q; }
// scenarios with one internal step per Update, on which the laws speak
inline Scn lawScn(Ctx&x,int n,int nl=-1,bool noPond=false){ n=span(x,n); GenOpt o; o.single=true; o.sftP=0.2; o.nl=nl; o.noPond=noPond; if(x.r.p(0.1)) o.soilMode=2; bool ad=x.r.p(0.15); if(ad) o.single=false; Scn q=scn(x,o,n); if(ad) q.c.adaptive=q.w.adaptive=true; if(x.r.p(0.1)) tie(x,q); else if(x.r.p(0.1)) field(x,q,n); return q; }
// wet-up then recede, long dry spells etc: long histories
inline Scn longScn(Ctx&x,int n){ GenOpt o; o.hourly=x.r.p(0.7); o.single=x.r.p(0.15); o.sftP=0.1; Scn q=scn(x,o,n,0.05); // several seasons: patterns change over time
  int i=0; while(i<n){ int len=std::min(n-i,x.r.i(40,400)); Forc g=rndForc(x.r,q.c,len); for(int k=0;k<len;k++){ q.f.P[i+k]=g.P[k]; q.f.E[i+k]=g.E[k]; } i+=len; } if(x.r.p(0.4)) field(x,q,n); return q; }
// run law monitors on one-step scenarios and, for a share of the cases, on scenarios bridged to several steps per Update
inline void lawCase(Ctx&x,const std::vector<Monitor>&ms,int n=120,int nl=-1){
  if(x.r.p(0.2)&&span(x,n)==n){ GenOpt o; o.single=true; o.sftP=0.2; o.nl=nl; Scn q=scn(x,o,1); int K=x.r.i(2,12); int m=std::max(4,n/K); Forc g=rndForc(x.r,q.c,m); if(q.c.sft) temps(x.r,q.c,g,3);
    Forc f; for(int i=0;i<m;i++) for(int k=0;k<K;k++){ f.P.push_back(g.P[i]); f.E.push_back(g.E[i]); if(q.c.sft) f.T.push_back(g.T[i]); } q.f=f; q.c.adaptive=q.w.adaptive=false; bridge(x,q,K,ms); x.cnt("bridged_runs"); }
  else drive(x,lawScn(x,n,nl),ms);
}
inline std::string slurp(const std::string&p){ std::ifstream i(p,std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
inline std::string replaceAll(std::string s,const std::string&a,const std::string&b){ size_t p=0; while((p=s.find(a,p))!=std::string::npos){ s.replace(p,a.size(),b); p+=b.size(); } return s; }
// outcome of running fn in a child of its own
struct Outcome { bool done=false; bool threw=false; int status=0; std::string what; bool rejected()const{ return threw||(WIFSIGNALED(status)&&WTERMSIG(status)==SIGABRT)||(WIFEXITED(status)&&WEXITSTATUS(status)!=0&&!done); } };
inline Outcome isolated(Ctx&x,const std::function<void()>&fn){
  Outcome o; int p[2]; if(pipe(p)) throw std::runtime_error("harness: pipe"); fflush(stdout);
  pid_t pid=fork(); if(pid==0){ close(p[0]); alarm(60); char r='D'; std::string w; try{ fn(); }catch(std::exception&e){ r='T'; w=e.what(); }catch(...){ r='T'; } fflush(stdout); (void)!write(p[1],&r,1); (void)!write(p[1],w.data(),std::min<size_t>(w.size(),400)); _exit(0); }
  close(p[1]); char b[512]; std::string s; ssize_t n; while((n=read(p[0],b,sizeof b))>0) s.append(b,n); close(p[0]); waitpid(pid,&o.status,0);
  if(!s.empty()){ o.done=s[0]=='D'; o.threw=s[0]=='T'; o.what=s.substr(1); } return o;
}
inline std::string describe(const Outcome&o){ if(o.threw) return "exception: "+o.what; if(o.done) return "accepted"; if(WIFSIGNALED(o.status)) return "signal "+std::to_string(WTERMSIG(o.status)); return "exit status "+std::to_string(WEXITSTATUS(o.status)); }
// full trajectory of a scenario
inline std::vector<Snap> traj(Ctx&x,const Scn&q,const std::string&tag,bool fin=true){
  std::string p=write_cfg(q.cal?q.w:q.c,x.dir,tag); Run r; r.init(q.c,p); if(q.cal) setCal(r.b,q.c); std::vector<Snap> t; t.push_back(observe(r.b));
  for(size_t i=0;i<q.f.size();i++){ if(q.c.sft) r.temp(q.f.T[i]); r.step(q.f.P[i],q.f.E[i]); t.push_back(observe(r.b)); x.cnt("updates"); if(t.back().f.size()!=t[t.size()-2].f.size()||t.back().R>0||t.back().D!=0||t.back().I>0){ x.cnt("eventful_updates"); uint64_t h=mixh(t.back().f.size(),q.c.nl()); h=mixh(h,(t.back().R>0)|(t.back().D>0)<<1|(t.back().pond>0)<<2|(q.f.P[i]>0)<<3|q.c.closedG<<4|q.c.adaptive<<5|q.c.sft<<6|q.cal<<7); for(auto&w:t.back().f) h=mixh(h,w.layer*2+w.bot); x.sig(h); } }
  if(fin) r.fin(); return t;
}
inline void sampleOf(Ctx&x,const Scn&q){ std::string s=brief(q.c)+(q.cal?" calibrated":"")+" P[mm/h]="; for(size_t i=0;i<std::min<size_t>(q.f.size(),16);i++){ char b[24]; snprintf(b,24,"%.4g ",q.f.P[i]); s+=b; } x.sample(s); }
inline uint64_t digest(const std::vector<Snap>&t){ uint64_t h=99; auto d=[&](double v){ uint64_t u; memcpy(&u,&v,8); h=mixh(h,u); }; for(auto&s:t){ d(s.t); for(double v:{s.P,s.E,s.A,s.R,s.G,s.S,s.Q,s.I,s.D,s.W,s.MB,s.pond}) d(v); for(auto&w:s.f){ d(w.depth); d(w.theta); d(w.psi); d(w.K); d(w.dzdt); h=mixh(h,w.layer*2+w.bot); } for(double v:s.th) d(v); for(double v:s.dz) d(v); } return h; }
} // namespace mon
