// Core of the monitoring harness: configuration writer, model driver, snapshots, reference physics.
// Nothing here calls the model's internal functions: the model is driven through its BMI and observed through
// the BMI getters and the read-only state handle (get_model()).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <sys/stat.h>
#include "bmi_lgar.hxx"

namespace mon {

// ---------------------------------------------------------------- deterministic RNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed=1):s(seed*0x9E3779B97F4A7C15ull+0x1234567ull){ for(int i=0;i<4;i++) next(); }
  uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  double u(){ return (next()>>11)*(1.0/9007199254740992.0); }
  double u(double a,double b){ return a+(b-a)*u(); }
  double lu(double a,double b){ return std::exp(u(std::log(a),std::log(b))); }
  int i(int a,int b){ if(b<a) return a; return a+(int)(next()%(uint64_t)(b-a+1)); }
  bool p(double q){ return u()<q; }
  template<class T> const T& pick(const std::vector<T>& v){ return v[next()%v.size()]; }
};

// ---------------------------------------------------------------- scenario description
struct Soil { std::string name; double thr,the,alpha,n,Ks; double m()const{return 1.0-1.0/n;} };

struct Cfg {
  std::vector<double> thick;        // cm
  std::vector<int> type;            // 1-based soil rows
  std::vector<Soil> soils;          // soil table
  double init_psi=2000, ts_s=300, fr_s=3600, end_h=1e5, pond_max=0, wp=15495.0, fc=340.9;
  bool closedG=false, adaptive=false, sft=false, calib=false;
  bool terse=false;                 // options that have their default value are left out of the file
  std::vector<double> giuh{0.06,0.51,0.28,0.12,0.03};
  std::vector<double> soil_z;       // cm
  std::string verbosity="none";
  int max_valid=-1;                 // -1: not written
  std::string kind;                 // label of the generator
  int nl()const{return (int)thick.size();}
  double cum(int l)const{ double c=0; for(int i=0;i<l;i++) c+=thick[i]; return c; } // depth of bottom of layer l (1-based), cum(0)=0
  double depth()const{return cum(nl());}
  const Soil& soil(int layer)const{return soils[type[layer-1]-1];}
};

struct Forc { std::vector<double> P,E; std::vector<std::vector<double>> T; size_t size()const{return P.size();} };

inline std::string g17(double v){ char b[64]; snprintf(b,sizeof b,"%.17g",v); return b; }
inline std::string vec(const std::vector<double>& v){ std::string s; for(size_t i=0;i<v.size();i++){ if(i) s+=","; s+=g17(v[i]); } return s; }

inline void spit(const std::string& path,const std::string& s){
  FILE*f=fopen(path.c_str(),"w"); if(!f) throw std::runtime_error("harness: cannot write "+path);
  fwrite(s.data(),1,s.size(),f); fclose(f);
}
inline std::string soil_table(const Cfg& c){
  std::string s="\"Texture theta_r theta_e alpha(cm^-1) n Ks(cm/h)\"\n";
  for(auto&x:c.soils) s+="\""+x.name+"\" "+g17(x.thr)+" "+g17(x.the)+" "+g17(x.alpha)+" "+g17(x.n)+" "+g17(x.Ks)+"\n";
  return s;
}
// key/value lines of the configuration file (one entry per line, canonical order)
inline std::vector<std::string> config_lines(const Cfg& c,const std::string& soilfile){
  std::vector<std::string> L;
  if(!c.terse||getenv("MON_VERBOSE")||c.verbosity!="none") L.push_back("verbosity="+(getenv("MON_VERBOSE")?getenv("MON_VERBOSE"):c.verbosity));
  L.push_back("soil_params_file="+soilfile);
  L.push_back("layer_thickness="+vec(c.thick)+"[cm]");
  L.push_back("initial_psi="+g17(c.init_psi)+"[cm]");
  L.push_back("timestep="+g17(c.ts_s)+"[sec]");
  L.push_back("endtime="+g17(c.end_h)+"[hr]");
  L.push_back("forcing_resolution="+g17(c.fr_s)+"[sec]");
  if(!c.terse||c.pond_max!=0) L.push_back("ponded_depth_max="+g17(c.pond_max)+"[cm]");
  if(!c.terse||c.closedG) L.push_back(std::string("use_closed_form_G=")+(c.closedG?"true":"false"));
  { std::string s="layer_soil_type="; for(size_t i=0;i<c.type.size();i++){ if(i) s+=","; s+=std::to_string(c.type[i]); } L.push_back(s); }
  if(c.max_valid>=0) L.push_back("max_valid_soil_types="+std::to_string(c.max_valid));
  L.push_back("wilting_point_psi="+g17(c.wp)+"[cm]");
  L.push_back("field_capacity_psi="+g17(c.fc)+"[cm]");
  L.push_back("giuh_ordinates="+vec(c.giuh));
  if(!c.terse||c.adaptive) L.push_back(std::string("adaptive_timestep=")+(c.adaptive?"true":"false"));
  if(c.sft||(!c.terse&&!c.soil_z.empty())){ L.push_back(std::string("sft_coupled=")+(c.sft?"true":"false")); if(!c.soil_z.empty()) L.push_back("soil_z="+vec(c.soil_z)+"[cm]"); }
  if(c.calib) L.push_back("calib_params=true");
  return L;
}
inline std::string join(const std::vector<std::string>& L){ std::string s; for(auto&x:L) s+=x+"\n"; return s; }

// writes config + soil table into dir with given tag, returns config path
inline std::string write_cfg(const Cfg& c,const std::string& dir,const std::string& tag){
  std::string sp=dir+"/"+tag+".dat", cp=dir+"/"+tag+".txt";
  spit(sp,soil_table(c)); spit(cp,join(config_lines(c,sp))); return cp;
}

// ---------------------------------------------------------------- observation
struct Front { double depth,theta,psi,K,dzdt; int layer,num; bool bot; };
struct Snap {
  std::vector<Front> f;
  double t=0;                                     // s
  double P=0,E=0,A=0,R=0,G=0,S=0,Q=0,I=0,D=0,W=0,MB=0;  // BMI outputs in m: precip,PET,AET,runoff,giuh,storage,discharge,infil,percolation,gw,mass balance
  double pond=0;                                  // cm of water on the surface after the update
  double cP=0,cI=0,cR=0,cA=0,cE=0,cD=0,cG=0,cQ=0,cend=0,con=0,cstart=0,ccal=0; // cumulative bookkeeping (cm)
  double lmb=0;
  std::vector<double> th,dz; int nwf=0;           // BMI profile arrays
  std::vector<double> ff;                         // frozen factors 1..nl
  long steps=0;
  double dt_h=0;                                  // last internal time step
};
inline double get1(BmiLGAR& b,const char*n){ double v=NAN; b.GetValue(n,&v); return v; }

inline Snap observe(BmiLGAR& b){
  Snap s; model_state*m=b.get_model();
  for(wetting_front*w=m->head;w;w=w->next){ s.f.push_back({w->depth_cm,w->theta,w->psi_cm,w->K_cm_per_h,w->dzdt_cm_per_h,w->layer_num,w->front_num,w->to_bottom}); if(s.f.size()>5000) break; }
  s.t=b.GetCurrentTime();
  s.P=get1(b,"precipitation"); s.E=get1(b,"potential_evapotranspiration"); s.A=get1(b,"actual_evapotranspiration");
  s.R=get1(b,"surface_runoff"); s.G=get1(b,"giuh_runoff"); s.S=get1(b,"soil_storage"); s.Q=get1(b,"total_discharge");
  s.I=get1(b,"infiltration"); s.D=get1(b,"percolation"); s.W=get1(b,"groundwater_to_stream_recharge"); s.MB=get1(b,"mass_balance");
  auto&mb=m->lgar_mass_balance; s.lmb=mb.local_mass_balance;
  s.pond=mb.volon_timestep_cm; s.cP=mb.volprecip_cm; s.cI=mb.volin_cm; s.cR=mb.volrunoff_cm; s.cA=mb.volAET_cm; s.cE=mb.volPET_cm; s.cD=mb.volrech_cm;
  s.cG=mb.volrunoff_giuh_cm; s.cQ=mb.volQ_cm; s.cend=mb.volend_cm; s.con=mb.volon_cm; s.cstart=mb.volstart_cm; s.ccal=mb.volchange_calib_cm;
  b.GetValue("soil_num_wetting_fronts",&s.nwf);
  if(s.nwf>=0&&s.nwf<5000){ s.th.assign(s.nwf,NAN); s.dz.assign(s.nwf,NAN);
    if(s.nwf){ b.GetValue("soil_moisture_wetting_fronts",s.th.data()); b.GetValue("soil_depth_wetting_fronts",s.dz.data()); } }
  int nl=m->lgar_bmi_params.num_layers; s.ff.assign(nl+1,1.0); for(int i=1;i<=nl;i++) s.ff[i]=m->lgar_bmi_params.frozen_factor[i];
  s.steps=m->lgar_bmi_params.timesteps; s.dt_h=m->lgar_bmi_params.timestep_h;
  return s;
}

// what the model was doing, for the report of a run that it ends itself
struct Last { char kind[16]="-"; double room=-1; double P=0; long n=0; };
inline Last& last(){ static thread_local Last l; return l; }
inline double maxStorage(const Cfg&c); inline double storage(const Cfg&c,const std::vector<Front>&f);
inline void noteStep(BmiLGAR&b,const Cfg&c,double P){ Last&l=last(); snprintf(l.kind,sizeof l.kind,"%s",c.kind.c_str()); l.P=P; l.n++; std::vector<Front> f; model_state*m=b.get_model();
  for(wetting_front*w=m->head;w&&f.size()<5000;w=w->next) f.push_back({w->depth_cm,w->theta,w->psi_cm,0,0,w->layer_num,w->front_num,w->to_bottom}); for(auto&w:f) if(w.layer<1||w.layer>c.nl()) return; for(int t:c.type) if(t<1||t>(int)c.soils.size()) return; l.room=maxStorage(c)-storage(c,f); }
struct Run {
  BmiLGAR b; bool live=false; Cfg c;
  Run(){} Run(const Run&)=delete;
  void init(const Cfg& cfg,const std::string& path){ c=cfg; b.Initialize(path); live=true; }
  void step(double P,double E){ b.SetValue("precipitation_rate",&P); b.SetValue("potential_evapotranspiration_rate",&E); noteStep(b,c,P); b.Update(); }
  void temp(const std::vector<double>&T){ b.SetValue("soil_temperature_profile",(void*)T.data()); }
  void fin(){ if(live){ b.Finalize(); live=false; } }
};

// ---------------------------------------------------------------- reference physics (independent of the model's sources)
inline double vgSe(const Soil&s,double h){ return h<=0?1.0:std::pow(1.0+std::pow(s.alpha*h,s.n),-s.m()); }
inline double vgTheta(const Soil&s,double h){ return s.thr+(s.the-s.thr)*vgSe(s,h); }
inline double vgH(const Soil&s,double th){ double Se=(th-s.thr)/(s.the-s.thr); if(Se>=1) return 0; return std::pow(std::pow(Se,-1.0/s.m())-1.0,1.0/s.n)/s.alpha; }
inline double vgKrSe(const Soil&s,double Se){ double a=1.0-std::pow(1.0-std::pow(Se,1.0/s.m()),s.m()); return std::sqrt(Se)*a*a; }
// d: shift of the effective saturation (K of low-n soils is extremely sensitive to rounding next to saturation)
inline double vgK(const Soil&s,double th,double d=0){ double Se=(th-s.thr)/(s.the-s.thr)+d; if(Se>1) Se=1; if(Se<0) Se=0; return s.Ks*vgKrSe(s,Se); }
// exact capillary drive  (1/Ks) * integral of K(h) dh between the two water contents
inline double exactG(const Soil&s,double th1,double th2){
  double hi=vgH(s,th1), lo=vgH(s,th2); if(!(hi>lo)) return 0;
  static const double X[8]={0.0950125098376374,0.2816035507792589,0.4580167776572274,0.6178762444026438,0.7554044083550030,0.8656312023878318,0.9445750230732326,0.9894009349916499};
  static const double W[8]={0.1894506104550685,0.1826034150449236,0.1691565193950025,0.1495959888165767,0.1246289712555339,0.0951585116824928,0.0622535239386479,0.0271524594117541};
  auto seg=[&](double a,double b){ double c=(a+b)/2,h=(b-a)/2,r=0; for(int i=0;i<8;i++) r+=W[i]*(vgKrSe(s,vgSe(s,c-h*X[i]))+vgKrSe(s,vgSe(s,c+h*X[i]))); return r*h; };
  double sum=0; double h0=1e-6/s.alpha; double a=lo;
  // geometric panels
  double b=std::max(a*1.3,a+h0);
  while(b<hi){ sum+=seg(a,b); a=b; b=a*1.3; }
  sum+=seg(a,hi); return sum;
}
inline void brooksCorey(const Soil&s,double&lambda,double&psib){
  double p=1.0+2.0/s.m(); lambda=2.0/(p-3.0);
  psib=(p+3.0)*(147.8+8.1*p+0.092*p*p)/(2.0*s.alpha*p*(p-1.0)*(55.6+7.4*p+p*p));
}
inline double closedG(const Soil&s,double th1,double th2){
  double lam,pb; brooksCorey(s,lam,pb); double S1=(th1-s.thr)/(s.the-s.thr), S2=(th2-s.thr)/(s.the-s.thr); double e=3+1/lam;
  double H=pb*(2+3*lam)/(1+3*lam); double g=H*(std::pow(S2,e)-std::pow(S1,e))/(1-std::pow(S1,e));
  return std::isfinite(g)?g:H;
}
// water stored in the soil: every front holds its moisture from the front above it (or the layer top) to its own depth
inline double storage(const Cfg&c,const std::vector<Front>&f){
  double s=0; for(size_t i=0;i<f.size();i++){ double top=c.cum(f[i].layer-1); if(i>0&&f[i-1].layer==f[i].layer) top=f[i-1].depth; s+=f[i].theta*(f[i].depth-top); }
  return s;
}
inline double maxStorage(const Cfg&c){ double s=0; for(int l=1;l<=c.nl();l++) s+=c.soil(l).the*c.thick[l-1]; return s; }
inline double minStorage(const Cfg&c){ double s=0; for(int l=1;l<=c.nl();l++) s+=c.soil(l).thr*c.thick[l-1]; return s; }

// hourly unit-hydrograph ordinates -> ordinates on the forcing interval (piecewise-constant hourly density)
inline std::vector<double> refGiuh(const std::vector<double>&h,double fr_h){
  std::vector<double> o; double H=h.size(); int n=(int)std::ceil(H/fr_h-1e-9);
  for(int j=0;j<n;j++){ double a=j*fr_h,b=(j+1)*fr_h,v=0; for(size_t k=0;k<h.size();k++){ double lo=std::max(a,(double)k),hi=std::min(b,k+1.0); if(hi>lo) v+=h[k]*(hi-lo); } o.push_back(v); }
  return o;
}
} // namespace mon
