// Case engine: every case runs in a forked child whose output is captured; it reports through a pipe.
#pragma once
#include "laws.hpp"
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <signal.h>
#include <fstream>
#include <iostream>
namespace mon {

struct Ctx {
  Rng r; std::string dir, prop; uint64_t seed; int idx; int fd; bool thorough=false;
  std::map<std::string,long> cn; std::map<std::string,double> mx; std::set<uint64_t> sg; std::map<std::string,int> nv; std::string smp;
  Ctx(uint64_t s):r(s){}
  void line(const std::string&s){ std::string t=s; for(char&ch:t) if(ch=='\n') ch=' '; t+="\n"; size_t o=0; while(o<t.size()){ ssize_t k=write(fd,t.data()+o,t.size()-o); if(k<=0) break; o+=k; } }
  void viol(const std::string&key,const std::string&msg){ if(nv[key]++<2) line("V "+key+" "+msg); }
  void cnt(const std::string&k,long n=1){ cn[k]+=n; }
  void met(const std::string&k,double v){ auto it=mx.find(k); if(it==mx.end()) mx[k]=v; else if(!(it->second>=v)) it->second=v; }
  void sig(uint64_t h){ if(sg.size()<4000) sg.insert(h); }
  void sample(const std::string&s){ if(smp.empty()) smp=s; }
  void flush(){ for(auto&x:cn) line("C "+x.first+" "+std::to_string(x.second)); for(auto&x:mx) line("M "+x.first+" "+g17(x.second)); if(!smp.empty()) line("S "+smp);
    std::string b; int k=0; for(auto h:sg){ char t[20]; snprintf(t,20," %llx",(unsigned long long)h); b+=t; if(++k%200==0){ line("H"+b); b.clear(); } } if(!b.empty()) line("H"+b); line("D done"); }
  std::string outfile()const{ return dir+"/out"; }
};
typedef void(*CaseFn)(Ctx&);

inline uint64_t mixh(uint64_t h,uint64_t v){ h^=v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); return h*0xff51afd7ed558ccdull; }
inline uint64_t hstr(const std::string&s){ uint64_t h=1469598103934665603ull; for(unsigned char ch:s){ h^=ch; h*=1099511628211ull; } return h; }

// one Update as observed from outside
struct Obs { const Cfg&c; const Snap&a; const Snap&s; double Pr,Er; double P,E; double fr; bool prevWet; int i; const std::vector<double>*T; };
typedef std::function<void(Ctx&,const Obs&)> Monitor;

inline std::string brief(const Cfg&c){ std::string s=c.kind+" layers="+vec(c.thick)+" types="; for(int t:c.type) s+=std::to_string(t)+","; for(int l=1;l<=c.nl();l++){ const Soil&q=c.soil(l); char b[160]; snprintf(b,160," [%.4g %.4g a=%.4g n=%.4g Ks=%.4g]",q.thr,q.the,q.alpha,q.n,q.Ks); s+=b; }
  s+=" psi0="+g17(c.init_psi)+" ts="+g17(c.ts_s)+" fr="+g17(c.fr_s)+" pond="+g17(c.pond_max)+(c.closedG?" closedG":"")+(c.adaptive?" adaptive":"")+(c.sft?" sft":""); return s; }
inline std::string at(const Obs&o){ return " at update "+std::to_string(o.i+1)+" P="+g17(o.Pr)+"mm/h PET="+g17(o.Er)+"mm/h; "+brief(o.c); }

// what kind of step was it (coverage signature)
inline uint64_t stepSig(const Obs&o){
  uint64_t h=7; h=mixh(h,o.c.nl()); h=mixh(h,std::min<size_t>(o.s.f.size(),12)); h=mixh(h,o.s.f.size()>o.a.f.size()?2:o.s.f.size()<o.a.f.size()?1:0);
  h=mixh(h,(o.Pr>0)|(o.s.R>0)<<1|(o.s.D>0)<<2|(o.s.pond>0)<<3|(o.Er>0)<<4|(o.a.pond>0)<<5|o.c.closedG<<6|o.c.adaptive<<7|o.c.sft<<8);
  for(auto&w:o.s.f) h=mixh(h,w.layer*2+w.bot); return h;
}
inline bool evented(const Obs&o){ return o.s.f.size()!=o.a.f.size()||o.s.R>0||o.s.D!=0||o.s.pond>0||o.s.I>0; }

// a scenario: the column as it behaves (c), the configuration as it is written (w: differs when parameters are calibrated through the BMI)
struct Scn { Cfg c,w; Forc f; bool cal=false; };
inline void setCal(BmiLGAR&b,const Cfg&c){ // set the calibratable parameters of every layer to those of c
  int n=c.nl(); std::vector<double> a(n),r(n),vn(n),al(n),k(n); for(int l=1;l<=n;l++){ const Soil&s=c.soil(l); a[l-1]=s.the; r[l-1]=s.thr; vn[l-1]=s.n; al[l-1]=s.alpha; k[l-1]=s.Ks; }
  b.SetValue("smcmax",a.data()); b.SetValue("smcmin",r.data()); b.SetValue("van_genuchten_n",vn.data()); b.SetValue("van_genuchten_alpha",al.data()); b.SetValue("hydraulic_conductivity",k.data());
  double fc=c.fc,pm=c.pond_max; b.SetValue("field_capacity",&fc); b.SetValue("ponded_depth_max",&pm);
}
// state before the first Update as the calibrated column holds it: same heads, moistures of the calibrated soils
inline void calibrated(const Cfg&c,Snap&a){ for(auto&w:a.f) w.theta=vgTheta(c.soil(w.layer),w.psi); a.S=storage(c,a.f)/100; }

// run a scenario with monitors on every Update
inline void drive(Ctx&x,const Scn&q,const std::vector<Monitor>&ms,Snap*last=nullptr,Run*keep=nullptr){
  const Cfg&c=q.c; const Forc&f=q.f;
  std::string p=write_cfg(q.cal?q.w:c,x.dir,"c"); Run local; Run&R=keep?*keep:local; R.init(c,p); Snap a=observe(R.b); bool prevWet=false;
  if(q.cal){ setCal(R.b,c); calibrated(c,a); x.cnt("calibrated_runs"); }
  if(c.sft) x.cnt("frozen_soil_runs"); 
  if(c.adaptive) x.cnt("adaptive_runs"); 
  if(c.closedG) x.cnt("closed_form_runs");
  x.cnt("runs_"+std::to_string(c.nl())+"_layers");
  std::string smp=brief(c)+(q.cal?" calibrated":"")+" P[mm/h]="; for(size_t i=0;i<std::min<size_t>(f.size(),24);i++){ char b[24]; snprintf(b,24,"%.4g ",f.P[i]); smp+=b; } x.sample(smp);
  for(size_t i=0;i<f.size();i++){
    if(c.sft&&!f.T.empty()) R.temp(f.T[i]);
    R.step(f.P[i],f.E[i]); Snap s=observe(R.b); double fr=c.fr_s/3600;
    Obs o{c,a,s,f.P[i],f.E[i],f.P[i]*0.1*fr,f.E[i]*0.1*fr,fr,prevWet,(int)i,f.T.empty()?nullptr:&f.T[i]};
    for(auto&m:ms) m(x,o);
    x.cnt("updates"); if(evented(o)){ x.cnt("eventful_updates"); x.sig(stepSig(o)); }
    x.met("fronts",(double)s.f.size()); x.met("mobile_fronts",(double)s.f.size()-c.nl());
    if(s.f.size()>a.f.size()) x.cnt("front_births");
    if(s.f.size()<a.f.size()) x.cnt("front_losses");
    if(s.R>0) x.cnt("runoff_updates");
    if(s.D>0) x.cnt("percolation_updates");
    if(s.pond>0) x.cnt("ponded_updates");
    prevWet=f.P[i]>0; a=s;
  }
  if(last) *last=a;
  if(!keep) R.fin();
}
// compare two observed states of (supposedly) the same column
inline std::string stateDiff(const Snap&a,const Snap&b,double tol){
  if(a.f.size()!=b.f.size()) return "number of fronts "+std::to_string(a.f.size())+" vs "+std::to_string(b.f.size());
  auto ne=[&](double u,double v){ return !(std::fabs(u-v)<=tol*(1+std::max(std::fabs(u),std::fabs(v))))&&!(std::isnan(u)&&std::isnan(v)); };
  for(size_t i=0;i<a.f.size();i++){ auto&p=a.f[i];auto&q=b.f[i]; std::string w="front "+std::to_string(i+1)+" "; if(p.layer!=q.layer||p.bot!=q.bot) return w+"layer "+std::to_string(p.layer)+" vs "+std::to_string(q.layer);
    if(ne(p.depth,q.depth)) return w+"depth "+g17(p.depth)+" vs "+g17(q.depth); if(ne(p.theta,q.theta)) return w+"moisture "+g17(p.theta)+" vs "+g17(q.theta); if(ne(p.psi,q.psi)&&std::fabs(p.theta-q.theta)>tol) return w+"head "+g17(p.psi)+" vs "+g17(q.psi); }
  if(ne(a.pond,b.pond)) return "ponded water "+g17(a.pond)+" vs "+g17(b.pond);
  return "";
}
inline std::string outDiff(const Snap&a,const Snap&b,double tol,bool routed=true){ // tolerance in m
  struct N{const char*n;double u,v;}; std::vector<N> L={{"precipitation",a.P,b.P},{"potential_evapotranspiration",a.E,b.E},{"actual_evapotranspiration",a.A,b.A},{"surface_runoff",a.R,b.R},{"soil_storage",a.S,b.S},{"infiltration",a.I,b.I},{"percolation",a.D,b.D},{"groundwater_to_stream_recharge",a.W,b.W}};
  if(routed){ L.push_back({"giuh_runoff",a.G,b.G}); L.push_back({"total_discharge",a.Q,b.Q}); }
  for(auto&n:L) if(!(std::fabs(n.u-n.v)<=tol)) return std::string(n.n)+" "+g17(n.u)+" vs "+g17(n.v)+" m";
  return "";
}
inline bool bitSame(const Snap&a,const Snap&b,std::string&why){ // every observed number identical
  why=stateDiff(a,b,0); if(why.empty()) why=outDiff(a,b,0); if(why.empty()&&a.t!=b.t) why="time "+g17(a.t)+" vs "+g17(b.t); return why.empty();
}
// Is the run so sensitive that rounding-level changes of forcing and initial head show above tol by Update `upto`?  Then two runs
// that differ only in rounding cannot be compared that far (asked only when they were seen to differ).
inline bool sensitive(Ctx&x,const Scn&q,size_t upto,double tol,double otol=1e-9){
  auto go=[&](const Scn&z,const char*tag){ std::string p=write_cfg(z.cal?z.w:z.c,x.dir,tag); Run r; r.init(z.c,p); if(z.cal) setCal(r.b,z.c); std::vector<Snap> t; t.push_back(observe(r.b)); for(size_t i=0;i<z.f.size()&&i<=upto;i++){ if(z.c.sft) r.temp(z.f.T[i]); r.step(z.f.P[i],z.f.E[i]); t.push_back(observe(r.b)); } r.fin(); return t; };
  Rng g(x.seed*77+x.idx); std::vector<Snap> base=go(q,"sb"); for(int k=0;k<36;k++){ Scn z=q; double mag=k%3==0?2e-13:k%3==1?2e-12:2e-11; double h=1+(g.u()-0.5)*mag; z.c.init_psi*=h; z.w.init_psi*=h; for(auto&v:z.f.P) v*=1+(g.u()-0.5)*mag; for(auto&v:z.f.E) v*=1+(g.u()-0.5)*mag; std::vector<Snap> t=go(z,"sp");
    for(size_t i=1;i<t.size();i++){ std::string d=stateDiff(t[i],base[i],tol/3); if(d.empty()) d=outDiff(t[i],base[i],otol/3); if(!d.empty()){ x.cnt("too_sensitive_to_compare"); return true; } } }
  return false;
}
// The same forcing on one forcing interval of K internal steps, and on K intervals of one step each, must lead through the
// same states; the fine run carries the monitors, so that they also speak for runs with several steps per Update.
inline void bridge(Ctx&x,const Scn&fine,int K,const std::vector<Monitor>&ms){
  // fine.f holds n*K intervals, constant within each block of K
  Scn co=fine; co.c.fr_s=co.w.fr_s=fine.c.fr_s*K; co.c.ts_s=co.w.ts_s=fine.c.fr_s; Forc cf; for(size_t i=0;i<fine.f.size();i+=K){ cf.P.push_back(fine.f.P[i]); cf.E.push_back(fine.f.E[i]); if(!fine.f.T.empty()) cf.T.push_back(fine.f.T[i]); }
  std::vector<Snap> tr; std::vector<double> sA,sD,sR,sI; double A=0,D=0,R=0,I=0; std::vector<Monitor> m2=ms;
  m2.push_back([&](Ctx&,const Obs&o){ A+=o.s.A; D+=o.s.D; R+=o.s.R; I+=o.s.I; if((o.i+1)%K==0){ tr.push_back(o.s); sA.push_back(A); sD.push_back(D); sR.push_back(R); sI.push_back(I); A=D=R=I=0; } });
  drive(x,fine,m2);
  std::string p=write_cfg(co.cal?co.w:co.c,x.dir,"b"); Run rb; rb.init(co.c,p); if(co.cal) setCal(rb.b,co.c);
  for(size_t i=0;i<cf.size();i++){ if(co.c.sft) rb.temp(cf.T[i]); rb.step(cf.P[i],cf.E[i]); Snap s=observe(rb.b); x.cnt("multi_step_updates");
    std::string d=stateDiff(s,tr[i],1e-7); if(d.empty()) d=!(std::fabs(s.A-sA[i])<=1e-9)?"evapotranspiration "+g17(s.A)+" vs "+g17(sA[i]):!(std::fabs(s.D-sD[i])<=1e-9)?"percolation "+g17(s.D)+" vs "+g17(sD[i]):!(std::fabs(s.R-sR[i])<=1e-9)?"runoff "+g17(s.R)+" vs "+g17(sR[i]):!(std::fabs(s.I-sI[i])<=1e-9)?"infiltration "+g17(s.I)+" vs "+g17(sI[i]):"";
    if(!d.empty()){ if(sensitive(x,fine,(i+1)*K,1e-7)) break; x.viol("substeps","an Update of "+std::to_string(K)+" internal steps differs from "+std::to_string(K)+" Updates of one step: "+d+" at update "+std::to_string(i+1)+"; "+brief(co.c)); break; } }
  rb.fin();
}
} // namespace mon
