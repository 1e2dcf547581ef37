// Reference semantics of one internal step of the model, written from the published algorithm (move, redistribute, merge,
// cross a layer, leave through the bottom, drop dry-over-wet fronts), with closed-form or bracketing solvers instead of the
// model's fixed-step iterations.  Works on observed profiles only; never calls model code.
#pragma once
#include "laws.hpp"
namespace mon {
typedef std::vector<Front> Prof;
// exact total water of a profile, also while fronts are transiently out of order
inline double heldWater(const Cfg&c,const Prof&f){ double s=0; for(size_t i=0;i<f.size();i++){ double d=f[i].depth-c.cum(f[i].layer-1); s+= (i+1<f.size()&&f[i+1].layer==f[i].layer)? d*(f[i].theta-f[i+1].theta): d*f[i].theta; } return s; }

struct StepRef { Prof f; double A=0,D=0,I=0; bool amb=false; std::string why; int merges=0,crossings=0,exits=0,dried=0,deepened=0; bool born=false; double newDepth=0; std::string log; };

inline void ambig(StepRef&r,const char*w){ r.amb=true; if(r.why.empty()) r.why=w; }
inline bool nearly(double a,double b,double e){ return std::fabs(a-b)<=e*(1+std::fabs(a)+std::fabs(b)); }

inline void refMerge(const Cfg&c,StepRef&r){ auto&f=r.f;
  for(size_t i=0;i+1<f.size();i++){ if(f[i].layer!=f[i+1].layer||f[i+1].bot) continue;
    if(nearly(f[i].depth,f[i+1].depth,1e-8)&&f[i].depth!=f[i+1].depth) ambig(r,"merge tie");
    if(f[i].depth>f[i+1].depth){ double w=f[i].depth*(f[i].theta-f[i+1].theta)+f[i+1].depth*(f[i+1].theta-f[i+2].theta); f[i].depth=w/(f[i].theta-f[i+2].theta); f[i].psi=vgH(c.soil(f[i].layer),f[i].theta); f.erase(f.begin()+i+1); r.merges++; } }
}
inline void refCross(const Cfg&c,StepRef&r){ auto&f=r.f;
  for(size_t i=0;i+1<f.size();i++){ int L=f[i].layer; double B=c.cum(L); if(L==c.nl()||f[i+1].layer!=L||!f[i+1].bot) continue;
    if(nearly(f[i].depth,B,1e-8)&&f[i].depth!=B) ambig(r,"cross tie");
    if(f[i].depth>B){ const Soil&q=c.soil(L+1); f[i].psi=vgH(c.soil(L),f[i].theta); double th=vgTheta(q,f[i].psi); double gap=th-f[i+2].theta; if(std::fabs(gap)<1e-6) ambig(r,"cross into equal moisture");
      double add=(f[i].depth-B)*(f[i].theta-f[i+1].theta)/gap; f[i+1].depth=B+add; f[i+1].theta=th; f[i+1].psi=f[i].psi; f[i+1].layer=L+1; f[i+1].bot=false; f[i].depth=B; f[i].bot=true; r.crossings++; } }
}
// fronts that became drier than the one below them disappear; the water that this adds is taken from evapotranspiration
inline void refDry(const Cfg&c,StepRef&r,double&change){ auto&f=r.f; bool any=false;
  for(size_t i=0;i+1<f.size();i++) if(f[i].layer==f[i+1].layer){ if(f[i].theta!=f[i+1].theta&&std::fabs(f[i].theta-f[i+1].theta)<1e-11) ambig(r,"dry tie"); if(f[i].theta<=f[i+1].theta) any=true; }
  if(!any) return;
  for(size_t i=0;i+1<f.size();i++) if(f[i].layer==f[i+1].layer&&f[i].theta<=f[i+1].theta){ double w0=heldWater(c,f); int L=f[i].layer; f.erase(f.begin()+i); r.dried++;
    if(L>1){ f[i].psi=vgH(c.soil(f[i].layer),f[i].theta); for(size_t k=0;k<f.size()&&f[k].layer<L;k++){ f[k].psi=f[i].psi; f[k].theta=vgTheta(c.soil(f[k].layer),f[i].psi); } }
    change+=std::fabs(heldWater(c,f)-w0); }
}
// capillary head at which the column above and including depth d in layer L holds `target`, relative to the profile below
inline double solveHead(const Cfg&c,int L,double d,double target,double thBelow,const std::vector<double>&thBelowAbove,StepRef&r,bool&sat,bool&dryLimit){
  auto W=[&](double h){ double w=d*(vgTheta(c.soil(L),h)-thBelow); for(int k=1;k<L;k++) w+=c.thick[k-1]*(vgTheta(c.soil(k),h)-thBelowAbove[k]); return w; };
  sat=dryLimit=false; if(W(0)<=target+1e-9){ sat=true; return 0; } if(W(1e6)>=target){ dryLimit=true; return 1e6; }
  double lo=-30,hi=std::log(1e6); for(int i=0;i<200;i++){ double m=(lo+hi)/2; if(W(std::exp(m))>target) lo=m; else hi=m; } return std::exp((lo+hi)/2);
}
// one internal step without a new surface front.  infil: water entering the soil; aet: evapotranspiration demand
inline StepRef refMove(const Cfg&c,const Prof&p,const std::vector<double>&ff,double dt,double infil,double aet,bool satZero){
  StepRef r; r.f=p; auto&f=r.f; int n=p.size(); int fd=freeFront(p); double net=infil-aet; r.A=aet; double change=0;
  for(int j=n-1;j>=0;j--){ Front&w=f[j]; const Soil&s=c.soil(w.layer);
    if(j<n-1&&f[j+1].layer!=w.layer){ w.psi=f[j+1].psi; w.theta=vgTheta(s,w.psi); }
    else if(j==n-1){ if(n!=c.nl()) continue; std::vector<double> z(c.nl()+1,0.0); double t=0; for(int k=1;k<=w.layer;k++) t+=(k<w.layer?c.thick[k-1]:p[j].depth-c.cum(w.layer-1))*(k<w.layer?vgTheta(c.soil(k),p[j].psi):p[j].theta); if(fd==j) t+=net;
      bool sat,dl; w.psi=solveHead(c,w.layer,w.depth-c.cum(w.layer-1),t,0,z,r,sat,dl); if(dl) ambig(r,"dry limit"); if(sat&&satZero){ r.A=0; net=infil; } w.theta=vgTheta(s,w.psi); if(!sat&&(w.psi<1e-2||w.theta>=s.the)) ambig(r,"near saturation"); }
    else if(w.layer==1){ double m=p[j].depth*(p[j].theta-p[j+1].theta)+(j==fd?net:0); w.depth=std::min(w.depth+w.dzdt*dt,c.depth()); if(w.dzdt==0) { ambig(r,"unmoved front"); continue; }
      double th=m/w.depth+f[j+1].theta; if(th<s.thr+1e-12){ ambig(r,"below residual"); th=s.thr; } w.theta=std::min(s.the,th); w.psi=vgH(s,w.theta); }
    else { w.depth+=w.dzdt*dt; double t=frontMass(c,p,j)+(j==fd?net:0); std::vector<double> z(c.nl()+1,0.0); for(int k=1;k<w.layer;k++) z[k]=vgTheta(c.soil(k),f[j+1].psi); bool sat,dl; w.psi=solveHead(c,w.layer,w.depth-c.cum(w.layer-1),t,f[j+1].theta,z,r,sat,dl); if(dl) ambig(r,"dry limit");
      if(sat&&satZero){ r.A=0; net=infil; } w.theta=vgTheta(s,w.psi); if(!sat&&w.psi<1e-2) ambig(r,"near saturation"); if(!sat&&w.theta>=s.the) ambig(r,"near saturation"); w.psi=vgH(s,w.theta); }
  }
  refCross(c,r); int g=freeFront(f);
  double The=c.soil(f[g].layer).the; if(f[g].theta<The-1e-14&&f[g].theta>The-1e-10) ambig(r,"nearly saturated");
  if(f[g].theta>=The-1e-14){ double want=heldWater(c,p)+net; double miss=want-heldWater(c,f);
    if(std::fabs(miss)>3e-10){ if(f[g].bot&&f[g].layer==c.nl()) ambig(r,"saturated column"); else { double gap=g+1<(int)f.size()&&f[g+1].layer==f[g].layer?f[g].theta-f[g+1].theta:f[g].theta; { char b[200]; snprintf(b,200," miss %.6e gap %.6e depth %.15g to %.15g",miss,gap,f[g].depth,f[g].depth+miss/gap); r.log+=b; } f[g].depth+=miss/gap; r.deepened++; if(gap<1e-4) ambig(r,"deepening into equal moisture"); if(std::fabs(miss/gap)>90) ambig(r,"deepening out of range"); } } }
  refDry(c,r,change); refMerge(c,r); refCross(c,r); refDry(c,r,change); refMerge(c,r);
  { int m=f.size(); if(m>=2){ Front&a=f[m-2]; if(nearly(a.depth,c.depth(),1e-8)&&a.layer==f[m-1].layer&&!(a.layer==1&&a.depth==c.depth()&&!r.deepened)) ambig(r,"exit tie"); if(a.layer==f[m-1].layer&&a.depth>=c.depth()){ r.D+=(a.theta-f[m-1].theta)*(a.depth-f[m-1].depth); f[m-1].theta=a.theta; f[m-1].psi=vgH(c.soil(a.layer),a.theta); f.erase(f.begin()+m-2); r.exits++; } } }
  refDry(c,r,change);
  if(std::fabs(change)>1e-7) { r.A-=change; if(std::fabs(change)<1.01e-7) ambig(r,"tiny adjustment"); }
  return r;
}
// depth of a new surface front
inline double refDryDepth(const Cfg&c,double thetaSurface,double ff1,double dt,double G){ const Soil&s=c.soil(1); double tau=dt*s.Ks*ff1/(s.the-thetaSurface); return std::min(0.5*(tau+std::sqrt(tau*tau+4*tau*G)),c.cum(1)); }
inline void refBirth(const Cfg&c,StepRef&r,double ff1,double dt,double water,double G){ const Soil&s=c.soil(1); double th1=r.f[0].theta; double d=refDryDepth(c,th1,ff1,dt,G); r.newDepth=d; double cap=d*(s.the-th1); double th;
  if(nearly(cap,water,1e-10)) ambig(r,"birth exactly fills");
  if(cap>water){ r.I=water; th=std::min(th1+water/d,s.the); } else { r.I=cap; th=s.the; }
  r.born=true; r.f.insert(r.f.begin(),Front{d,th,vgH(s,th),0,0,1,1,false}); if(nearly(d,r.f[1].depth,1e-10)&&d!=r.f[1].depth) ambig(r,"birth tie"); if(r.f[0].depth>r.f[1].depth){ refMerge(c,r); refCross(c,r); }
}
// compare predicted and observed profile; returns a description of the first difference or ""
inline std::string profDiff(const Cfg&c,const Prof&e,const Prof&o,double td,double tt,double&worst){
  if(e.size()!=o.size()) return "number of fronts "+std::to_string(o.size())+", expected "+std::to_string(e.size())+" (deepest free front at "+g17(o.size()>1?o[o.size()-2].depth:0)+")";
  for(size_t i=0;i<e.size();i++){ std::string w="front "+std::to_string(i+1)+" ";
    if(e[i].layer!=o[i].layer||e[i].bot!=o[i].bot) return w+"is in layer "+std::to_string(o[i].layer)+", expected "+std::to_string(e[i].layer);
    double a=std::fabs(e[i].depth-o[i].depth)/(td*(1+e[i].depth)), b=std::fabs(e[i].theta-o[i].theta)/tt; worst=std::max({worst,a,b}); if(!(a<=1)) return w+"depth "+g17(o[i].depth)+" cm, expected "+g17(e[i].depth); if(!(b<=1)) return w+"moisture "+g17(o[i].theta)+", expected "+g17(e[i].theta); }
  return "";
}
} // namespace mon
