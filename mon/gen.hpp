// Workload generator: soils, columns, forcings. Everything is a function of an Rng.
#pragma once
#include "core.hpp"
namespace mon {

inline const std::vector<Soil>& textures(){
  static const std::vector<Soil> T={
   {"Clay",0.1,0.46,0.01,1.25,0.612},{"Clay-loam",0.08,0.44,0.02,1.42,0.3348},{"Loam",0.06,0.4,0.01,1.47,0.504},
   {"Loamy-sand",0.05,0.39,0.03,1.75,4.32},{"Sand",0.05,0.38,0.04,3.18,26.64},{"Sandy-clay",0.12,0.39,0.03,1.21,0.468},
   {"Sandy-clay-loam",0.06,0.38,0.02,1.33,0.54},{"Sandy-loam",0.04,0.39,0.03,1.45,1.584},{"Silt",0.05,0.49,0.01,1.68,1.836},
   {"Silty-clay",0.11,0.48,0.02,1.32,0.432},{"Silty-clay-loam",0.09,0.48,0.01,1.52,0.468},{"Silt-loam",0.07,0.44,0.01,1.66,0.756},
   {"P-1",0.0648,0.4513,0.0031297,1.6858,0.45},{"P-2",0.0831,0.4773,0.0083272,1.299,0.07},{"P-3",0.0668,0.4617,0.0037454,1.6151,0.45},
   {"B-1",0.0649,0.4481,0.009567,1.3579,0.07},{"B-2",0.0672,0.4760,0.005288,1.5276,0.02},{"B-3",0.0823,0.4782,0.004467,1.4585,0.20},
   {"H-Sand",0.045,0.43,0.145,2.68,29.7},{"H-Loamy-sand",0.057,0.41,0.124,2.28,14.5917},{"H-Sandy-loam",0.065,0.41,0.075,1.89,4.42083},
   {"H-Silt-loam",0.067,0.45,0.02,1.41,0.45},{"H-Silt",0.034,0.46,0.016,1.37,0.25},{"H-Loam",0.078,0.43,0.036,1.56,1.04},
   {"H-Clay-loam",0.095,0.41,0.019,1.31,0.26},{"H-Sandy-clay",0.1,0.38,0.027,1.23,0.12},{"H-Silty-clay",0.07,0.36,0.005,1.09,0.02},{"H-Clay",0.068,0.38,0.008,1.09,0.2}};
  return T;
}
inline Soil rndSoil(Rng&r,int mode){ // 0 texture, 1 jittered texture, 2 documented calibration ranges
  if(mode<=1){ Soil s=r.pick(textures()); if(mode==1){ s.thr*=r.u(0.8,1.2); s.the*=r.u(0.93,1.07); s.alpha*=r.u(0.7,1.4); s.n=1+(s.n-1)*r.u(0.8,1.25); s.Ks*=r.lu(0.4,2.5);} return s; }
  Soil s; s.name="R"; s.thr=r.u(0.01,0.15); s.the=r.u(0.3,0.8); s.alpha=r.lu(0.001,0.3); s.n=r.u(1.01,3.0); s.Ks=r.lu(0.001,100); return s;
}
struct GenOpt { int soilMode=-1; int nl=-1; bool noPond=false; bool single=false; double sftP=0; double calibP=0; double wildP=0.25, rareP=0.08; bool hourly=false; };

inline void addTemp(Rng&r,Cfg&c){ // temperature nodes: at least one per layer, increasing depth
  c.sft=true; c.soil_z.clear();
  for(int l=1;l<=c.nl();l++){ int k=r.i(1,4); std::vector<double> z; for(int i=0;i<k;i++) z.push_back(c.cum(l-1)+c.thick[l-1]*r.u(0.02,0.98)); if(r.p(0.3)) z.push_back(c.cum(l)); std::sort(z.begin(),z.end()); for(double v:z) c.soil_z.push_back(v); }
  if(r.p(0.4)) for(int i=r.i(1,3);i>0;i--) c.soil_z.push_back(c.soil_z.back()+r.u(1,60)); // nodes below the column
}
inline std::vector<double> rndTemp(Rng&r,const Cfg&c){ // one profile; spans frozen, thawing and warm, per layer
  std::vector<double> T; int pat=r.i(0,4); double base=r.pick(std::vector<double>{273.15,272.9,273.05,283,263});
  for(size_t i=0;i<c.soil_z.size();i++){ double t; switch(pat){ case 0: t=base; break; case 1: t=273.15+r.u(-0.35,0.05); break; case 2: t=r.p(0.5)?273.15+r.u(-0.3,0):280; break; case 3: t=273.15-0.3+0.4*(double)i/c.soil_z.size(); break; default: t=r.u(255,295); } T.push_back(t); }
  return T;
}
inline Cfg rndCfg(Rng&r,const GenOpt&o=GenOpt()){
  Cfg c; bool wild=r.p(o.wildP), rare=r.p(o.rareP);
  int nl=o.nl>0?o.nl:(wild?r.pick(std::vector<int>{1,1,2,3,4,5,6}):r.pick(std::vector<int>{1,2,2,3,3,3,4}));
  if(rare&&o.nl<0&&r.p(0.25)) nl=r.i(6,10);
  int mode=o.soilMode>=0?o.soilMode:r.pick(std::vector<int>{0,0,1,1,1});
  int rows=wild&&r.p(0.4)?15:std::min(15,nl+r.i(0,6));
  for(int i=0;i<rows;i++){ c.soils.push_back(rndSoil(r,mode)); c.soils.back().name="s"+std::to_string(i+1)+"-"+c.soils.back().name; if(c.soils.back().name.size()>22) c.soils.back().name.resize(22); }
  std::vector<int> idx; for(int i=1;i<=rows;i++) idx.push_back(i);
  for(size_t i=idx.size()-1;i>0;i--) std::swap(idx[i],idx[r.next()%(i+1)]);
  for(int l=0;l<nl;l++) c.type.push_back(idx[l]);
  if(nl>1&&r.p(0.1)) c.type[nl-1]=c.type[0];
  if(nl>1&&wild&&r.p(0.15)) c.type[1]=c.type[0];
  if(wild&&rows==15&&r.p(0.3)) c.type[r.i(0,nl-1)]=15;
  for(int l=0;l<nl;l++) c.thick.push_back(wild?r.pick(std::vector<double>{10,20,25,44,100,175,300})*(r.p(0.5)?1:r.u(0.5,1.5)):std::round(r.lu(8,150)*10)/10);
  c.init_psi=wild?r.pick(std::vector<double>{5,50,340.9,1000,5000,10000}):r.lu(10,3000);
  if(rare&&r.p(0.3)) c.init_psi=r.pick(std::vector<double>{0.5,1,2,12000,15000,30000,100000});
  if(rare&&r.p(0.2)) for(auto&t:c.thick) t=r.p(0.5)?r.lu(5,12):r.lu(150,450);
  c.fr_s=r.pick(std::vector<double>{300,900,1800,3600,3600,3600});
  if(wild) c.fr_s=r.p(0.2)?r.pick(std::vector<double>{10,45,90,100,450,1000,1234.5,3630}):r.pick(std::vector<double>{60,300,600,720,1200,2400,3600,5400,7200,10800});
  if(o.hourly) c.fr_s=3600;
  if(wild) c.ts_s=r.pick(std::vector<double>{60,100,120,180,240,300,360,420,500,600,720,900,1000,1200,1800,3600,7200});
  else do { c.ts_s=r.pick(std::vector<double>{300,300,300,600,900,1800,3600}); } while(c.ts_s>c.fr_s);
  if(o.single){ c.fr_s=c.ts_s=r.pick(std::vector<double>{60,300,300,300,600,900,1800,3600}); }
  c.adaptive=r.p(o.single?0.25:0.4); if(o.single&&r.p(0.1)) c.ts_s*=r.pick(std::vector<double>{1.5,2,4});
  if(rare&&!o.single&&!o.hourly&&r.p(0.2)){ c.fr_s=r.pick(std::vector<double>{21600,43200,86400}); c.ts_s=r.pick(std::vector<double>{900,1800,3600,7200}); }
  c.closedG=r.p(0.3);
  c.pond_max=o.noPond?0:(r.p(0.45)?0.0:r.pick(std::vector<double>{1e-6,1e-4,1e-3,0.01,0.05,0.05,0.2,0.2,0.5,0.5,1,1.1,2,5,20}));
  c.fc=r.p(0.6)?r.pick(std::vector<double>{340.9,103.3}):r.lu(10.3,516.6);
  c.wp=r.p(0.7)?15495.0:r.lu(2000,30000);
  c.giuh.clear(); int ng=rare&&r.p(0.2)?r.i(25,60):wild?r.i(1,24):r.i(1,6); double s=0; for(int i=0;i<ng;i++){ c.giuh.push_back(r.p(0.15)?0.0:r.u(0.01,1)); s+=c.giuh.back(); } if(s==0){ c.giuh[0]=1; s=1; } for(auto&x:c.giuh) x/=s;
  if(r.p(o.sftP)) addTemp(r,c);
  c.kind=std::string("m")+std::to_string(mode)+(wild?"w":"")+(rare?"x":""); c.terse=r.p(0.3);
  return c;
}
// forcing in mm/h per forcing interval
inline Forc rndForc(Rng&r,const Cfg&c,int n,int pat=-1){
  Forc f; f.P.assign(n,0); f.E.assign(n,0);
  if(pat<0) pat=r.p(0.04)?9:r.i(0,8);
  double pet=r.pick(std::vector<double>{0,0.05,0.2,0.5,1.2}); bool diurnal=r.p(0.5); bool rare=r.p(0.06); if(rare) pet=r.pick(std::vector<double>{1e-6,1e-3,3,5});
  for(int i=0;i<n;i++){ double e=pet; if(diurnal){ double ph=std::sin(2*M_PI*i*c.fr_s/86400.0); e=ph>0?pet*2*ph:0; } f.E[i]=e; }
  auto ev=[&](int s,int len,double lo,double hi){ double q=r.lu(lo,hi); bool cst=r.p(0.3); for(int i=s;i<std::min(n,s+len);i++) f.P[i]=cst?q:q*r.u(0.3,1.7); };
  switch(pat){
   case 0: { int i=r.i(0,4); while(i<n){ int len=r.i(1,6); ev(i,len,0.2,40); i+=len+r.i(1,25); } break; } // showers
   case 1: { int i=r.i(0,3); while(i<n){ int len=r.i(1,2); ev(i,len,0.05,8); i+=len+r.i(1,3); } break; }    // rapid pulses: many fronts
   case 2: { int s=r.i(0,n/4); ev(s,r.i(2,10),30,200); if(r.p(0.5)) ev(r.i(n/2,n-1),r.i(1,5),20,150); break; } // storm(s)
   case 3: { ev(r.i(0,3),n,0.05,3); break; }                                                                // steady drizzle
   case 4: { break; }                                                                                        // drought
   case 5: { ev(0,n,5,60); for(int i=0;i<n;i++) if(r.p(0.1)) f.P[i]=0; break; }                              // wet: drives to saturation
   case 7: { int i=0; while(i<n){ int len=r.i(1,3); ev(i,len,0.5,25); i+=len+1; } break; }                      // alternating: as many fronts as possible
   case 8: { for(int i=0;i<n;i++) f.P[i]=r.pick(std::vector<double>{0,0,0,0,1e-6,1e-3,0.1,1,9.999,10,10.001,25,80,250}); break; } // threshold values
   case 9: { int i=r.i(0,3); double hi=r.pick(std::vector<double>{1e-4,0.01,0.2,300,1000}); while(i<n){ int len=r.i(1,4); for(int k=i;k<std::min(n,i+len);k++) f.P[k]=hi*r.lu(1e-2,1); i+=len+r.i(1,12); } break; } // traces and cloudbursts
   case 6: { for(int i=0;i<n;i++) if(r.p(0.35)) f.P[i]=r.p(0.15)?r.u(20,120):r.lu(0.01,10); break; }         // erratic
  }
  return f;
}
} // namespace mon
