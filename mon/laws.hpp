// Reference laws of the model, written from the documentation and the published equations, evaluated on observed
// states only.  Each law takes the state observed before an Update, the forcing, and the state observed after it.
#pragma once
#include "gen.hpp"
namespace mon {

// The adaptive trapezoid used for the capillary drive (dry end -> wet end), independent re-implementation.
inline double trapG(const Soil&s,double thDry,double thWet){
  double r=s.the-s.thr; double Si=(thDry-s.thr)/r, Sf=(thWet-s.thr)/r;
  auto hOf=[&](double S){ return std::pow(std::pow(S,-1.0/s.m())-1.0,1.0/s.n)/s.alpha; };
  auto kr=[&](double S){ double a=1.0-std::pow(1.0-std::pow(S,1.0/s.m()),s.m()); return std::sqrt(S)*a*a; };
  double hi=hOf(Si), hf=hOf(Sf); double dh=(hi-hf)/120.0*0.01, sum=0, k1=kr(Si), h=hf+dh; long it=0;
  while(h<hi){ double S= h<1e-10?1.0:1.0/std::pow(1.0+std::pow(s.alpha*h,s.n),s.m()); double k2=kr(S);
    if((k1-k2)/k2>0.02) dh*=0.5; else dh*=10.0;
    sum+=(k1+k2)*dh/2; k1=k2; h+=dh; if(++it>2000000) return NAN; }
  return std::fabs(sum);
}
struct GVal { double a,b; };  // two admissible values: model quadrature, exact integral
inline GVal capillaryDrive(const Cfg&c,const Soil&s,double thDry,double thWet){
  if(c.closedG){ double g=closedG(s,thDry,thWet); return {g,g}; }
  return {trapG(s,thDry,thWet), exactG(s,thDry,thWet)};
}

// index (0-based) of the front that takes up infiltration: first front with another one below it in the same layer, else the deepest
inline int freeFront(const std::vector<Front>&f){ for(size_t i=0;i+1<f.size();i++) if(f[i].layer==f[i+1].layer) return (int)i; return (int)f.size()-1; }

// Green-Ampt type infiltration capacity of a layered column [cm/h], without storage limit
inline double capacity(const Cfg&c,const std::vector<Front>&f,const std::vector<double>&ff,double pond0,double G){
  int i=freeFront(f); const Front&w=f[i]; int L=w.layer; double Ks=c.soil(L).Ks*ff[L];
  if(L==1) return Ks*(1+(G+pond0)/w.depth);
  double res=(w.depth-c.cum(L-1))/Ks; for(int k=1;k<L;k++) res+=c.thick[k-1]/(c.soil(k).Ks*ff[k]);
  return w.depth/res+(G+pond0)*Ks/w.depth;
}
inline GVal capDriveInf(const Cfg&c,const std::vector<Front>&f){
  if((int)f.size()==c.nl()) return {0,0};
  int i=freeFront(f); const Soil&s=c.soil(f[i].layer); return capillaryDrive(c,s,f[i+1].theta,s.the);
}
// ET demand [cm] for the step, S-shaped reduction with the capillary head of the surface front
inline double etDemand(const Cfg&c,const std::vector<Front>&f,double PETcm){
  const Soil&s=c.soil(f[0].layer); double tfc=vgTheta(s,c.fc), twp=vgTheta(s,c.wp); double h50=vgH(s,0.5*(tfc+twp));
  double a=PETcm/(1+std::pow(f[0].psi/h50,3)); return std::min(std::max(a,0.0),PETcm);
}
// velocity of front i in profile f [cm/h]
inline double frontSpeed(const Cfg&c,const std::vector<Front>&f,size_t i,const std::vector<double>&ff,double hp,double G,double d=0){
  const Front&w=f[i],&x=f[i+1]; const Soil&s=c.soil(w.layer); double Ks=s.Ks*ff[w.layer], K=vgK(s,w.theta,d)*ff[w.layer]; double dth=w.theta-x.theta;
  if(!(dth>0)) return 0; double v;
  if(w.layer==1) v=(Ks*(G+hp)/w.depth+K)/dth;
  else { double res=(w.depth-c.cum(w.layer-1))/K; for(int k=1;k<w.layer;k++){ const Soil&q=c.soil(k); res+=c.thick[k-1]/(vgK(q,vgTheta(q,w.psi),d)*ff[k]); }
    v=(w.depth/res+Ks*(G+hp)/w.depth)/dth; }
  return v;
}
// water held by front i relative to the profile below it, extended at constant head to the surface [cm]
inline double frontMass(const Cfg&c,const std::vector<Front>&f,size_t i){
  const Front&w=f[i]; double m=(w.depth-c.cum(w.layer-1))*(w.theta-f[i+1].theta);
  for(int k=1;k<w.layer;k++){ const Soil&q=c.soil(k); m+=c.thick[k-1]*(vgTheta(q,w.psi)-vgTheta(q,f[i+1].psi)); }
  return m;
}
inline double h50(const Cfg&c){ const Soil&s=c.soil(1); return vgH(s,0.5*(vgTheta(s,c.fc)+vgTheta(s,c.wp))); }
// expected layer frozen factors for a temperature profile
inline std::vector<double> frozen(const Cfg&c,const std::vector<double>&T){
  std::vector<double> o(c.nl()+1,1.0); size_t k=0;
  for(int l=1;l<=c.nl();l++){ double sum=0; int n=0; while(k<c.soil_z.size()&&c.soil_z[k]<=c.cum(l)){ sum+=T[k]; n++; k++; }
    if(n==0) { o[l]=NAN; continue; } double f=std::exp(-10*(273.15-sum/n)); o[l]=std::max(0.05,std::min(1.0,f)); }
  return o;
}
} // namespace mon
