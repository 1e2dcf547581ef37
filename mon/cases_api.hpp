// Cases about the BMI contract, time, sub-stepping, determinism, memory, calibration, freeze-thaw, pass-through, the shared library.
#pragma once
#include "scenarios.hpp"
#include "broken.hpp"
#include <thread>
#include <dlfcn.h>
extern "C" void __sanitizer_set_death_callback(void(*)(void)) __attribute__((weak));
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
namespace mon {
struct VarInfo { const char*n,*type,*units,*loc; int grid; };
inline const std::vector<VarInfo>& varTable(){ static const std::vector<VarInfo> V={
 {"precipitation_rate","double","mm h^-1","node",1},{"potential_evapotranspiration_rate","double","mm h^-1","node",1},{"soil_temperature_profile","double","K","node",4},
 {"soil_moisture_wetting_fronts","double","none","node",3},{"soil_depth_layers","double","m","node",2},{"soil_depth_wetting_fronts","double","m","node",3},{"soil_num_wetting_fronts","int","none","node",0},
 {"precipitation","double","m","node",1},{"potential_evapotranspiration","double","m","node",1},{"actual_evapotranspiration","double","m","node",1},{"surface_runoff","double","m","node",1},{"giuh_runoff","double","m","node",1},{"soil_storage","double","m","node",1},{"total_discharge","double","m","node",1},{"infiltration","double","m","node",1},{"percolation","double","m","node",1},{"groundwater_to_stream_recharge","double","m","node",1},{"mass_balance","double","m","node",1},
 {"smcmax","double",nullptr,nullptr,2},{"smcmin","double",nullptr,nullptr,2},{"van_genuchten_n","double",nullptr,nullptr,2},{"van_genuchten_alpha","double",nullptr,nullptr,2},{"hydraulic_conductivity","double",nullptr,nullptr,2},{"field_capacity","double",nullptr,nullptr,1},{"ponded_depth_max","double",nullptr,nullptr,1}}; return V; }
inline void inspect(Ctx&x,BmiLGAR&b,const Cfg&c,const Snap&s){
  Rng&r=x.r; std::string ctx=brief(c);
  for(auto&v:varTable()){ std::string n=v.n; x.cnt("variable_checks"); int g=b.GetVarGrid(n); if(g!=v.grid) x.viol("grid",n+" on grid "+std::to_string(g)+"; "+ctx); if(b.GetVarType(n)!=v.type) x.viol("type",n+" has type "+b.GetVarType(n)); if(v.units&&b.GetVarUnits(n)!=v.units) x.viol("units",n+" has units "+b.GetVarUnits(n)); if(v.loc&&b.GetVarLocation(n)!=v.loc) x.viol("location",n+" at "+b.GetVarLocation(n));
    int is=b.GetVarItemsize(n); int want=!strcmp(v.type,"int")?sizeof(int):sizeof(double); if(is!=want) x.viol("itemsize",n+" item size "+std::to_string(is));
    int sz=v.grid<2?1:v.grid==2?c.nl():v.grid==3?(int)s.f.size():c.sft?(int)c.soil_z.size():1; if(b.GetGridSize(g)!=sz) x.viol("gridsize","grid of "+n+" has size "+std::to_string(b.GetGridSize(g))+", expected "+std::to_string(sz)+"; "+ctx);
    int nb=b.GetVarNbytes(n); if(nb!=want*sz) x.viol("nbytes",n+" has "+std::to_string(nb)+" bytes, expected "+std::to_string(want*sz)+"; "+ctx);
    std::vector<unsigned char> d(want*sz+64,0xC3); b.GetValue(n,d.data()); for(int i=0;i<64;i++) if(d[want*sz+i]!=0xC3){ x.viol("overrun","GetValue("+n+") writes past its "+std::to_string(want*sz)+" bytes; "+ctx); break; }
    void*p=b.GetValuePtr(n); if(!p) { x.viol("ptr","GetValuePtr("+n+") is null"); continue; } if(memcmp(p,d.data(),want*sz)) x.viol("getvalue","GetValue("+n+") differs from GetValuePtr; "+ctx);
    int k=r.i(1,r.p(0.2)?40:6); std::vector<int> idx; for(int i=0;i<k;i++) idx.push_back(r.i(0,sz-1)); std::vector<unsigned char> e(want*k+32,0x5A); b.GetValueAtIndices(n,e.data(),idx.data(),k); for(int i=0;i<k;i++) if(memcmp(&e[i*want],&d[idx[i]*want],want)){ x.viol("at_indices","GetValueAtIndices("+n+") entry "+std::to_string(idx[i])+" differs; "+ctx); break; } for(int i=0;i<32;i++) if(e[want*k+i]!=0x5A){ x.viol("overrun","GetValueAtIndices("+n+") writes past "+std::to_string(k)+" items"); break; }
    x.sig(mixh(hstr(n),mixh(sz,g))); }
  // published arrays are those of the state
  int nl=c.nl(); std::vector<double> dl(nl); b.GetValue("soil_depth_layers",dl.data()); for(int l=1;l<=nl;l++) if(!(std::fabs(100*dl[l-1]-c.cum(l))<=1e-9)) x.viol("layers","soil_depth_layers wrong; "+ctx);
  int sh[3]={-7,-7,-7}; b.GetGridShape(3,sh); if(sh[0]!=(int)s.f.size()||sh[1]!=-7) x.viol("shape","shape of the wetting-front grid is "+std::to_string(sh[0])+"; "+ctx); sh[0]=-7; b.GetGridShape(2,sh); if(sh[0]!=nl||sh[1]!=-7) x.viol("shape","shape of the layer grid is "+std::to_string(sh[0])+"; "+ctx);
  for(int g:{0,1,4}){ sh[0]=-7; b.GetGridShape(g,sh); if(sh[0]!=b.GetGridSize(g)||sh[1]!=-7) x.viol("shape","grid "+std::to_string(g)+" has size "+std::to_string(b.GetGridSize(g))+" but shape "+std::to_string(sh[0])+"; "+ctx); x.cnt("shape_checks"); }
  for(int g=0;g<5;g++) if(b.GetGridRank(g)!=1) x.viol("rank","grid rank"); if(b.GetGridSize(99)!=-1||b.GetGridRank(99)!=-1) x.viol("rank","unknown grid is described"); if(b.GetGridType(0)!="uniform_rectilinear") x.viol("gridtype",b.GetGridType(0));
}
inline bool throws_(const std::function<void()>&f){ try{ f(); }catch(std::exception&){ return true; } return false; }
inline void c15(Ctx&x){
  Scn q=anyScn(x,40); q.cal=false; q.w=q.c; Cfg&c=q.c; sampleOf(x,q); std::vector<Snap> ref=traj(x,q,"t"); Rng&r=x.r; std::string p=write_cfg(c,x.dir,"g"); Run R; R.init(c,p); BmiLGAR&b=R.b; std::string ctx=brief(c);
  { auto in=b.GetInputVarNames(),out=b.GetOutputVarNames(); if((int)in.size()!=b.GetInputItemCount()||(int)out.size()!=b.GetOutputItemCount()||in.size()!=3||out.size()!=15) x.viol("names","variable counts are wrong"); size_t k=0; for(auto&n:in) if(n!=varTable()[k++].n) x.viol("names","input name "+n); for(auto&n:out) if(n!=varTable()[k++].n) x.viol("names","output name "+n);
    if(b.GetComponentName()!="LASAM (Lumped Arid/Semi-arid Model)") x.viol("component",b.GetComponentName()); if(b.GetTimeUnits()!="s"||b.GetStartTime()!=0) x.viol("time","time units or start"); if(std::fabs(b.GetTimeStep()-c.fr_s)>1e-6||std::fabs(b.GetEndTime()-c.end_h*3600)>1e-3) x.viol("time","time step or end time; "+ctx); }
  inspect(x,b,c,observe(b));
  for(size_t i=0;i<q.f.size();i++){ if(c.sft){ if(r.p(0.5)) R.temp(q.f.T[i]); else { // entry by entry, in random order
        std::vector<int> id; for(size_t k=0;k<c.soil_z.size();k++) id.push_back(k); for(int k=(int)id.size()-1;k>0;k--) std::swap(id[k],id[r.next()%(k+1)]); std::vector<double> v; for(int k:id) v.push_back(q.f.T[i][k]); b.SetValueAtIndices("soil_temperature_profile",id.data(),id.size(),v.data()); std::vector<double> back(c.soil_z.size()); b.GetValue("soil_temperature_profile",back.data()); if(back!=q.f.T[i]) x.viol("set_indices","soil_temperature_profile is not what was set entry by entry; "+ctx); } }
    double P=q.f.P[i],E=q.f.E[i]; if(r.p(0.3)){ int z=0; b.SetValueAtIndices("precipitation_rate",&z,1,&P); } else b.SetValue("precipitation_rate",&P); if(r.p(0.3)) *(double*)b.GetValuePtr("potential_evapotranspiration_rate")=E; else b.SetValue("potential_evapotranspiration_rate",&E);
    x.cnt("round_trips",2); if(get1(b,"precipitation_rate")!=P||get1(b,"potential_evapotranspiration_rate")!=E) x.viol("round_trip","an input reads back differently; "+ctx);
    b.Update(); Snap s=observe(b); std::string why; if(!bitSame(s,ref[i+1],why)) { x.viol("perturbed","reading or setting variables changed the run: "+why+" at update "+std::to_string(i+1)+"; "+ctx); break; }
    if(get1(b,"precipitation_rate")!=P||get1(b,"potential_evapotranspiration_rate")!=E) x.viol("round_trip","Update changed an input; "+ctx);
    if(r.p(0.25)||s.f.size()!=ref[i].f.size()) inspect(x,b,c,s);
    // calibratable parameters read back as set (and, without the calibration flag, have no effect: judged by the trajectory above)
    if(r.p(0.15)){ static const char*N[]={"smcmax","smcmin","van_genuchten_n","van_genuchten_alpha","hydraulic_conductivity"}; const char*n=N[r.i(0,4)]; std::vector<double> v(c.nl()),w(c.nl()); for(auto&u:v) u=r.u(0.1,2); b.SetValue(n,v.data()); b.GetValue(n,w.data()); x.cnt("round_trips"); if(v!=w) x.viol("round_trip",std::string(n)+" reads back differently; "+ctx); int k=r.i(0,c.nl()-1); double u=r.u(3,4); b.SetValueAtIndices(n,&k,1,&u); v[k]=u; b.GetValue(n,w.data()); if(v!=w) x.viol("set_indices",std::string(n)+": setting one entry changed others; "+ctx); { int m=r.i(0,30); std::vector<int> id; std::vector<double> nv; for(int i=0;i<m;i++){ id.push_back(r.i(0,c.nl()-1)); nv.push_back(r.u(4,5)); v[id[i]]=nv[i]; } id.push_back(0); nv.push_back(9); b.SetValueAtIndices(n,id.data(),m,nv.data()); b.GetValue(n,w.data()); x.cnt("repeated_index_sets"); if(v!=w) x.viol("set_indices",std::string(n)+": setting "+std::to_string(m)+" entries in the given order gives other values; "+ctx); } double sc=r.u(1,2),t2; for(const char*m:{"field_capacity","ponded_depth_max"}){ b.SetValue(m,&sc); b.GetValue(m,&t2); if(sc!=t2) x.viol("round_trip",std::string(m)+" reads back differently"); }
      // any finite value reads back bit by bit, also one that makes no physical sense
      static const double H[]={0.0,-0.0,-1.0,-340.9,5e-324,1e-300,1.7976931348623157e308,-1e300,1.0/3,0.1,16777217.0,9007199254740993.0}; auto hv=[&]{ return r.p(0.8)?H[r.i(0,11)]:r.u(-1e6,1e6); };
      for(const char*m:{"field_capacity","ponded_depth_max","precipitation_rate","potential_evapotranspiration_rate"}){ double a=hv(),g=777; b.SetValue(m,&a); b.GetValue(m,&g); x.cnt("hostile_round_trips"); if(memcmp(&a,&g,8)) x.viol("round_trip",std::string(m)+" was set to "+g17(a)+" and reads back "+g17(g)+"; "+ctx); int z=0; a=hv(); b.SetValueAtIndices(m,&z,1,&a); g=777; b.GetValueAtIndices(m,&g,&z,1); if(memcmp(&a,&g,8)||memcmp(&a,b.GetValuePtr(m),8)) x.viol("round_trip",std::string(m)+" was set to "+g17(a)+" by index and reads back "+g17(g)+"; "+ctx); }
      { std::vector<double> a(c.nl()),g(c.nl()); for(const char*m:N){ for(auto&u:a) u=hv(); b.SetValue(m,a.data()); b.GetValue(m,g.data()); x.cnt("hostile_round_trips"); if(memcmp(a.data(),g.data(),8*a.size())) x.viol("round_trip",std::string(m)+" reads back "+vec(g)+" instead of "+vec(a)+"; "+ctx); } }
      if(c.sft){ size_t k=c.soil_z.size(); std::vector<double> a(k),g(k); for(auto&u:a) u=hv(); b.SetValue("soil_temperature_profile",a.data()); b.GetValue("soil_temperature_profile",g.data()); if(memcmp(a.data(),g.data(),8*k)) x.viol("round_trip","soil_temperature_profile reads back "+vec(g)+" instead of "+vec(a)+"; "+ctx); } } }
  double buf[8]={0}; int ib[8]={0}; for(const char*n:{"no_such_variable","","precipitation_rat","soil_storage_","Precipitation","smcmax "}){ x.cnt("unknown_names"); if(!throws_([&]{ b.GetValue(n,buf); })||!throws_([&]{ b.GetValuePtr(n); })||!throws_([&]{ b.SetValue(n,buf); })||!throws_([&]{ b.GetValueAtIndices(n,buf,ib,1); })||!throws_([&]{ b.SetValueAtIndices(n,ib,1,buf); })) x.viol("unknown",std::string("variable '")+n+"' does not exist but was accepted"); if(b.GetVarGrid(n)!=-1||b.GetVarItemsize(n)!=0||b.GetVarType(n)!="none") x.viol("unknown",std::string("variable '")+n+"' is described"); }
  std::vector<std::function<void()>> ni={[&]{b.GetGridX(0,buf);},[&]{b.GetGridY(0,buf);},[&]{b.GetGridZ(0,buf);},[&]{b.GetGridNodeCount(0);},[&]{b.GetGridEdgeCount(0);},[&]{b.GetGridFaceCount(0);},[&]{b.GetGridEdgeNodes(0,ib);},[&]{b.GetGridFaceEdges(0,ib);},[&]{b.GetGridFaceNodes(0,ib);},[&]{b.GetGridNodesPerFace(0,ib);}}; for(auto&f:ni){ x.cnt("not_implemented"); if(!throws_(f)) x.viol("not_implemented","an unimplemented grid function returned"); }
  R.fin();
}
// ---------------------------------------------------------------- time
inline int stepsOf(const Cfg&c,double dt_s){ return (int)std::ceil(c.fr_s/dt_s-1e-8); }
inline void c16(Ctx&x){
  Scn q=anyScn(x,60,0.25); int k=x.idx%4; Rng&r=x.r;
  if(k<=1){ drive(x,q,{mTime}); return; }
  if(k==2){ // UpdateUntil is a sequence of Updates with the forcing in force
    q.cal=false; q.w=q.c; sampleOf(x,q); std::string p=write_cfg(q.c,x.dir,"u"); Run A,B; A.init(q.c,p); B.init(q.c,p); double t=0; size_t i=0; while(i<q.f.size()){ int n=r.i(1,4); double frac=r.p(0.5)?0:r.u(0.05,0.95); double target=t+(n-frac)*q.c.fr_s; if(target<=t+1) { target=t+q.c.fr_s; n=1; frac=0; } if(frac==0&&r.p(0.3)) target=A.b.GetCurrentTime()+n*q.c.fr_s; double P=q.f.P[i],E=q.f.E[i];
      if(q.c.sft){ A.temp(q.f.T[i]); B.temp(q.f.T[i]); } for(auto*u:{&A,&B}){ u->b.SetValue("precipitation_rate",&P); u->b.SetValue("potential_evapotranspiration_rate",&E); }
      A.b.UpdateUntil(target); for(int j=0;j<n;j++) B.b.Update(); t+=n*q.c.fr_s; i+=n; x.cnt("update_until_calls"); x.cnt("updates",n); Snap a=observe(A.b),b=observe(B.b); x.sig(mixh(mixh(n,frac>0),a.f.size())); std::string why; if(!bitSame(a,b,why)){ x.viol("until","UpdateUntil("+g17(target)+") differs from "+std::to_string(n)+" Updates: "+why+"; "+brief(q.c)); break; } if(!(a.t>=target-1e-3&&a.t<target+q.c.fr_s-1e-3)) x.viol("until_time","time after UpdateUntil("+g17(target)+") is "+g17(a.t)+"; "+brief(q.c));
      if(r.p(0.2)){ double back=a.t*r.u(0.1,1.0); if(back>0){ A.b.UpdateUntil(back); Snap a2=observe(A.b); if(!bitSame(a2,a,why)) x.viol("until_past","UpdateUntil of a time already reached changed the state: "+why+"; "+brief(q.c)); } } }
    A.fin(); B.fin(); return; }
  // end time inside a forcing interval: the last Update stops with the internal step that reaches it
  q.cal=false; q.c.adaptive=false; if(r.p(0.7)&&q.c.ts_s*2>q.c.fr_s) q.c.fr_s=q.c.ts_s*r.i(2,8); int n=stepsOf(q.c,q.c.ts_s); double dt=q.c.fr_s/n; int N=r.i(0,6); int m=r.i(1,n); double dh=dt/3600; bool exact=dh*64==std::floor(dh*64)&&q.c.ts_s==dt&&r.p(0.5); double off=exact?0.0:r.p(0.4)?(r.p(0.5)?1-std::min(0.5,0.3*dt)/dt:std::min(0.5,0.3*dt)/dt):r.u(0.3,0.7); if(exact) x.cnt("end_on_a_step"); q.c.end_h=(N*q.c.fr_s+(m-off)*dt)/3600; q.w=q.c; sampleOf(x,q);
  std::string p=write_cfg(q.c,x.dir,"e"); Run R; R.init(q.c,p); if(!(std::fabs(R.b.GetEndTime()-q.c.end_h*3600)<=1e-6*q.c.end_h*3600)) x.viol("end","end time "+g17(R.b.GetEndTime())+"; "+brief(q.c)); for(int i=0;i<=N;i++){ if(q.c.sft) R.temp(q.f.T[i]); R.step(q.f.P[i],q.f.E[i]); Snap s=observe(R.b); bool last=i==N; double el=(last?m*dt:q.c.fr_s)/3600; double t=(i*q.c.fr_s+(last?m*dt:q.c.fr_s)); x.cnt("updates"); if(last) x.cnt("truncated_updates"); x.sig(mixh(mixh(n,m),last));
    if(!(std::fabs(s.t-t)<=1e-3)) x.viol("end_time","time "+g17(s.t)+" s, expected "+g17(t)+" s; end "+g17(q.c.end_h*3600)+"; "+brief(q.c)); if(!(std::fabs(100*s.P-q.f.P[i]*0.1*el)<=1e-9)) x.viol("end_precip","precipitation "+g17(100*s.P)+" cm, expected "+g17(q.f.P[i]*0.1*el)+"; "+brief(q.c)); if(!(std::fabs(100*s.E-q.f.E[i]*0.1*el)<=1e-9)) x.viol("end_pet","PET volume; "+brief(q.c)); }
  R.fin();
}
// ---------------------------------------------------------------- sub-stepping
inline void c17(Ctx&x){
  Rng&r=x.r; int k=x.idx%4;
  if(k<=1){ GenOpt o; o.single=true; o.sftP=0.15; Scn q=scn(x,o,1); q.c.adaptive=q.w.adaptive=false; int K=r.i(2,15); int m=r.i(8,25); Forc g=rndForc(r,q.c,m); if(q.c.sft) temps(r,q.c,g,3); Forc f; for(int i=0;i<m;i++) for(int j=0;j<K;j++){ f.P.push_back(g.P[i]); f.E.push_back(g.E[i]); if(q.c.sft) f.T.push_back(g.T[i]); } q.f=f; bridge(x,q,K,{}); x.cnt("bridged_runs"); return; }
  if(k==2){ // a step that does not divide the interval is shortened to the next one that does
    GenOpt o; o.sftP=0.1; Scn q=scn(x,o,span(x,40)==40?30:300); q.c.adaptive=q.w.adaptive=false; q.c.fr_s=q.w.fr_s=r.pick(std::vector<double>{600,900,1800,3600,7200}); int n=r.i(1,13); Scn e=q; e.c.ts_s=e.w.ts_s=q.c.fr_s/n; double lo=q.c.fr_s/n, hi=n>1?q.c.fr_s/(n-1):q.c.fr_s*3; q.c.ts_s=q.w.ts_s=lo+(hi-lo)*(r.p(0.3)?(n>1?1-r.lu(1e-4,0.05):r.lu(1e-4,0.02)):r.u(0.02,0.95)); sampleOf(x,q);
    std::vector<Snap> a=traj(x,q,"a"),b=traj(x,e,"b"); x.cnt("uneven_steps"); for(size_t i=0;i<a.size();i++){ x.cnt("compared_states"); std::string d=stateDiff(a[i],b[i],1e-6); if(d.empty()) d=outDiff(a[i],b[i],1e-8); if(d.empty()&&a[i].steps!=b[i].steps) d="number of internal steps "+std::to_string(a[i].steps)+" vs "+std::to_string(b[i].steps); if(!d.empty()){ if(sensitive(x,e,i,1e-6,1e-8)) break; x.viol("uneven","time step "+g17(q.c.ts_s)+" s on intervals of "+g17(q.c.fr_s)+" s should act as "+std::to_string(n)+" equal steps: "+d+" at update "+std::to_string(i)+"; "+brief(q.c)); break; } } return; }
  // adaptive time step
  GenOpt o; o.sftP=0.1; Scn q=scn(x,o,span(x,40)); q.c.adaptive=q.w.adaptive=true; q.c.fr_s=q.w.fr_s=r.pick(std::vector<double>{900,1800,3600,3600,7200}); q.c.ts_s=q.w.ts_s=r.pick(std::vector<double>{60,150,300,300,600,900,1000,1800,3600}); int reg=r.i(0,4);
  if(reg<3){ double base=reg==0?r.u(10.5,60):reg==1?r.lu(0.05,9.9):0; if(r.p(0.2)) base=reg==0?std::nextafter(10.0,11):reg==1?10.0:0; for(auto&P:q.f.P) P=base; }
  sampleOf(x,q); std::vector<Snap> a=traj(x,q,"a"); x.cnt("adaptive_runs_checked"); std::vector<double> used; 
  for(size_t i=0;i<q.f.size();i++){ double P=q.f.P[i],pond=a[i].pond; if(pond>0&&pond<1e-9){ used.push_back(-1); continue; } double dt=P>10||pond>0?q.c.ts_s:P>0?2*q.c.ts_s:q.c.fr_s; dt=std::min(dt,q.c.fr_s); used.push_back(dt); int n=stepsOf(q.c,dt); long got=a[i+1].steps-a[i].steps; x.cnt(P>10||pond>0?"fine_steps":P>0?"medium_steps":"coarse_steps"); if(got!=n) x.viol("adaptive_count","adaptive stepping took "+std::to_string(got)+" internal steps, expected "+std::to_string(n)+" (P="+g17(P)+" mm/h, ponded "+g17(pond)+" cm) at update "+std::to_string(i+1)+"; "+brief(q.c)); }
  // a run that stays in one regime equals the run with that fixed step
  size_t m=0; while(m<used.size()&&used[m]>0&&used[m]==used[0]) m++;
  if(m>0){ Scn e=q; e.c.adaptive=e.w.adaptive=false; e.c.ts_s=e.w.ts_s=used[0]; e.f.P.resize(m); e.f.E.resize(m); if(q.c.sft) e.f.T.resize(m); std::vector<Snap> b=traj(x,e,"b"); for(size_t i=0;i<b.size();i++){ x.cnt("compared_states"); std::string d=stateDiff(a[i],b[i],1e-6); if(d.empty()) d=outDiff(a[i],b[i],1e-8); if(!d.empty()){ if(sensitive(x,e,i,1e-6,1e-8)) break; x.viol("adaptive_equal","adaptive run differs from the run with fixed steps of "+g17(used[0])+" s: "+d+" at update "+std::to_string(i)+"; "+brief(q.c)); break; } } }
}
// ---------------------------------------------------------------- determinism and isolation
inline void c18(Ctx&x){
  bool tsan=getenv("MON_TSAN"); Rng&r=x.r; int n=tsan?2:r.i(2,4); std::vector<Scn> qs; std::vector<std::vector<Snap>> solo;
  for(int i=0;i<n;i++){ qs.push_back(anyScn(x,tsan?15:40)); if(i>0&&r.p(0.2)){ qs[i]=qs[0]; } } sampleOf(x,qs[0]);
  for(int i=0;i<n;i++) solo.push_back(traj(x,qs[i],"s"+std::to_string(i)));
  auto cmp=[&](const char*what,int i,size_t k,const Snap&s){ std::string why; x.cnt("compared_states"); if(!bitSame(s,solo[i][k],why)) x.viol(what,std::string(what)+" run differs from the run alone at update "+std::to_string(k)+": "+why+"; "+brief(qs[i].c)); };
  if(!tsan){ std::vector<Snap> again=traj(x,qs[0],"again"); for(size_t k=0;k<again.size();k++) cmp("repeated",0,k,again[k]); x.cnt("repeated_runs"); // interleaved in one thread, with a random schedule; instances end at different times
    std::vector<std::unique_ptr<Run>> R; std::vector<size_t> pos(n,0); for(int i=0;i<n;i++){ R.emplace_back(new Run); std::string p=write_cfg(qs[i].cal?qs[i].w:qs[i].c,x.dir,"i"+std::to_string(i)); R[i]->init(qs[i].c,p); if(qs[i].cal) setCal(R[i]->b,qs[i].c); cmp("interleaved",i,0,observe(R[i]->b)); }
    int left=n; uint64_t h=5; while(left){ int i=r.i(0,n-1); if(!R[i]->live) continue; h=mixh(h,i); if(pos[i]==qs[i].f.size()){ R[i]->fin(); left--; continue; } size_t k=pos[i]++; if(qs[i].c.sft) R[i]->temp(qs[i].f.T[k]); R[i]->step(qs[i].f.P[k],qs[i].f.E[k]); x.cnt("interleaved_updates"); cmp("interleaved",i,k+1,observe(R[i]->b)); } x.sig(h); x.cnt("schedules"); }
  // concurrently, one thread per instance
  std::vector<std::unique_ptr<Run>> R; std::vector<std::vector<Snap>> tr(n); for(int i=0;i<n;i++){ R.emplace_back(new Run); std::string p=write_cfg(qs[i].cal?qs[i].w:qs[i].c,x.dir,"p"+std::to_string(i)); R[i]->init(qs[i].c,p); if(qs[i].cal) setCal(R[i]->b,qs[i].c); }
  std::vector<std::thread> th; for(int i=0;i<n;i++) th.emplace_back([&,i]{ for(size_t k=0;k<qs[i].f.size();k++){ if(qs[i].c.sft) R[i]->temp(qs[i].f.T[k]); R[i]->step(qs[i].f.P[k],qs[i].f.E[k]); tr[i].push_back(observe(R[i]->b)); } });
  for(auto&t:th) t.join(); for(int i=0;i<n;i++){ for(size_t k=0;k<tr[i].size();k++){ x.cnt("concurrent_updates"); cmp("concurrent",i,k+1,tr[i][k]); } R[i]->fin(); }
}
// ---------------------------------------------------------------- memory: everything the library does, under AddressSanitizer and UBSan
inline void lifecycle(Ctx&x,const Scn&q,const std::string&path,bool probe){
  Run R; R.init(q.c,path); if(q.cal) setCal(R.b,q.c); for(size_t i=0;i<q.f.size();i++){ if(q.c.sft) R.temp(q.f.T[i]); R.step(q.f.P[i],q.f.E[i]); x.cnt("updates"); if(probe){ Snap s=observe(R.b); std::vector<double> v(64+s.f.size()+q.c.soil_z.size()); for(auto&t:varTable()) R.b.GetValue(t.n,v.data()); if(s.R>0||s.D>0||s.I>0) { x.cnt("eventful_updates"); uint64_t h=mixh(s.f.size(),q.c.nl()); for(auto&w:s.f) h=mixh(h,w.layer*2+w.bot); x.sig(h); } } }
  R.fin(); }
// while a broken input is being refused, memory must not be misused either
inline void c19refusal(Ctx&x){
  Broken B=breakInput(x,(x.idx/10)%16); Outcome o=isolated(x,[&](){ if(__sanitizer_set_death_callback) __sanitizer_set_death_callback([](){ _exit(97); }); B.run(); }); x.cnt("refusals_watched");
  if((WIFEXITED(o.status)&&WEXITSTATUS(o.status)==97)||(WIFSIGNALED(o.status)&&WTERMSIG(o.status)!=SIGABRT&&WTERMSIG(o.status)!=SIGALRM)) x.viol("refusal","memory error while refusing an input ("+B.what+"): "+describe(o)+"; "+brief(B.c));
}
inline void c19(Ctx&x){
  if(x.idx%10==3) return c19refusal(x);
  Rng&r=x.r; Scn q; int k=x.idx%10; int n=r.i(10,80);
  if(k==8){ q=anyScn(x,n); q.cal=false; q.w=q.c; q.c.type[r.i(0,q.c.nl()-1)]=r.pick(std::vector<int>{0,-1,16,20,99,(int)q.c.soils.size()+1}); x.cnt("invalid_soil_runs"); }
  else if(k==9){ q=longScn(x,x.thorough?1500:200); } else if(k==7){ q=anyScn(x,20); q.c.verbosity=q.w.verbosity="high"; x.cnt("verbose_runs"); } else if(k==6){ GenOpt o; o.single=true; o.soilMode=2; o.sftP=0.3; q=scn(x,o,n,0.3); } else q=anyScn(x,n);
  if(k!=8&&!q.c.sft&&r.p(0.12)){ addTemp(r,q.c); q.c.sft=false; q.w.soil_z=q.c.soil_z; q.c.terse=q.w.terse=false; x.cnt("idle_soil_z_runs"); } // temperature depths given, coupling off
  if(k==8){ std::string s=q.c.kind+" invalid soil types"; x.sample(s); } else sampleOf(x,q);
  std::string p=write_cfg(q.cal?q.w:q.c,x.dir,"c"); lifecycle(x,q,p,true); x.cnt("lifecycles");
  if(k==7) (void)!truncate(x.outfile().c_str(),0);
  if(__sanitizer_get_current_allocated_bytes){ fflush(stdout); lifecycle(x,q,p,false); long a=0; { Ctx*px=&x; px->cnt("leak_cycles",3); } size_t b0=__sanitizer_get_current_allocated_bytes(); for(int i=0;i<3;i++) lifecycle(x,q,p,false); size_t b1=__sanitizer_get_current_allocated_bytes(); a=(long)b1-(long)b0; x.met("leaked_bytes",a); if(a!=0) x.viol("leak",std::to_string(a)+" bytes remain allocated after 3 life cycles of the model; "+(k==8?x.smp:brief(q.c))); }
}
// ---------------------------------------------------------------- no dependence on uninitialised memory (compared across differently poisoned builds)
inline uint64_t gridDigest(BmiLGAR&b){ double v[2]; b.GetGridSpacing(0,&v[0]); b.GetGridOrigin(0,&v[1]); uint64_t h=7,u; for(double d:v){ memcpy(&u,&d,8); h=mixh(h,u); } for(int g=0;g<5;g++){ int sh[3]={-1,-1,-1}; b.GetGridShape(g,sh); h=mixh(h,(uint64_t)(sh[0]+5)); } h=mixh(h,hstr(b.GetComponentName()+b.GetTimeUnits())); for(double d:{b.GetTimeStep(),b.GetStartTime(),b.GetEndTime(),b.GetCurrentTime()}){ memcpy(&u,&d,8); h=mixh(h,u); } return h; }
inline void c20(Ctx&x){ Scn q; if(x.idx%10==9){ q=anyScn(x,20); q.cal=false; q.c.type[0]=99; q.w=q.c; Cfg c=q.c; std::string p=write_cfg(c,x.dir,"c"); Run R; R.init(c,p); std::vector<Snap> t; for(size_t i=0;i<q.f.size();i++){ R.step(q.f.P[i],q.f.E[i]); Snap s=observe(R.b); t.push_back(s); x.cnt("updates"); } R.fin(); x.sample("invalid soil type"); char b[32]; snprintf(b,32,"G %016llx",(unsigned long long)digest(t)); x.line(b); return; }
  q=anyScn(x,getenv("MON_SMALL")?12:50); sampleOf(x,q); std::vector<Snap> t=traj(x,q,"c"); uint64_t gd; { Run R; R.init(q.c,write_cfg(q.cal?q.w:q.c,x.dir,"g")); gd=gridDigest(R.b); R.fin(); } fflush(stdout); char b[32]; snprintf(b,32,"G %016llx",(unsigned long long)mixh(mixh(digest(t),gd),hstr(replaceAll(slurp(x.outfile()),x.dir,"@")))); x.line(b); x.cnt("digested_states",t.size()); }
// ---------------------------------------------------------------- calibration
inline void c23(Ctx&x){
  Rng&r=x.r; GenOpt o; o.single=x.r.p(0.4); o.sftP=0.1; if(r.p(0.15)) o.soilMode=2; Scn q=scn(x,o,span(x,50),0); recalibrate(r,q); int k=x.idx%4; if(k==1){ // only some parameters are set; the others keep their configured values
    for(int l=0;l<q.c.nl();l++){ const Soil&b=q.w.soil(l+1); Soil s=q.c.soils[l]; if(r.p(0.5)) { s.thr=b.thr; s.the=b.the; } if(r.p(0.5)) s.n=b.n; if(r.p(0.5)) s.alpha=b.alpha; if(r.p(0.5)) s.Ks=b.Ks; if(s.thr>=s.the-0.05) s.thr=s.the*0.2; q.c.soils[l]=s; } }
  if(r.p(0.08)){ q.c.pond_max=-r.lu(1e-6,3); x.cnt("negative_pond_limits"); } // a configured negative limit means none
  sampleOf(x,q); Scn d; d.c=q.c; d.w=q.c; d.f=q.f; d.cal=false; std::string ctx=brief(q.c)+" (configured "+brief(q.w)+")";
  if(k==3){ // without the flag the parameters have no effect; with it, they have none after the first Update
    Scn w=q; w.c=q.w; w.c.calib=false; w.cal=false; w.w=w.c; std::vector<Snap> ref=traj(x,w,"r"); std::string p=write_cfg(w.c,x.dir,"n"); Run R; R.init(w.c,p); setCal(R.b,q.c); for(size_t i=0;i<q.f.size();i++){ if(w.c.sft) R.temp(q.f.T[i]); R.step(q.f.P[i],q.f.E[i]); if(r.p(0.1)) setCal(R.b,q.c); std::string why; x.cnt("compared_states"); if(!bitSame(observe(R.b),ref[i+1],why)){ x.viol("no_flag","parameters set without the calibration option changed the run: "+why+"; "+ctx); break; } } R.fin(); x.cnt("unflagged_runs"); 
    Scn w2=q; w2.c=q.w; std::string p2=write_cfg(q.w,x.dir,"m"); Run S; S.init(q.w,p2); for(size_t i=0;i<q.f.size();i++){ if(i==1) setCal(S.b,q.c); if(w.c.sft) S.temp(q.f.T[i]); S.step(q.f.P[i],q.f.E[i]); std::string d2=stateDiff(observe(S.b),ref[i+1],1e-7); x.cnt("compared_states"); if(!d2.empty()){ if(sensitive(x,w,i,1e-7)) break; x.viol("late","parameters set after the first Update changed the run (or calibration to the configured values did): "+d2+" at update "+std::to_string(i+1)+"; "+ctx); break; } } S.fin(); x.cnt("late_runs"); return; }
  std::vector<Snap> a=traj(x,q,"a",false); std::vector<Snap> b; { std::string p=write_cfg(d.c,x.dir,"b"); Run R; R.init(d.c,p); b.push_back(observe(R.b)); for(size_t i=0;i<q.f.size();i++){ if(d.c.sft) R.temp(q.f.T[i]); R.step(q.f.P[i],q.f.E[i]); b.push_back(observe(R.b)); } R.fin(); }
  x.cnt("calibrated_runs"); bool shared=false; for(int i=0;i<q.w.nl();i++) for(int j=0;j<i;j++) if(q.w.type[i]==q.w.type[j]) shared=true; if(shared) x.cnt("shared_soil_runs"); if(q.c.closedG) x.cnt("closed_form_runs");
  for(size_t i=1;i<a.size();i++){ x.cnt("compared_states"); std::string dd=stateDiff(a[i],b[i],1e-7); if(dd.empty()) dd=outDiff(a[i],b[i],1e-9); if(dd.empty()&&a[i].f.size()==b[i].f.size()) for(size_t j=0;j<a[i].f.size();j++) if(!(std::fabs(a[i].f[j].dzdt-b[i].f[j].dzdt)<=1e-6*(1+b[i].f[j].dzdt))) dd="front speed "+g17(a[i].f[j].dzdt)+" vs "+g17(b[i].f[j].dzdt); if(!dd.empty()){ if(sensitive(x,d,i,1e-7)) break; x.viol("equivalent","run calibrated through the BMI differs from the run configured with the same parameters: "+dd+" at update "+std::to_string(i)+"; "+ctx); break; } }
  // reported change of storage
  { std::string p=write_cfg(q.w,x.dir,"z"); Run R; R.init(q.w,p); double before=storage(q.w,observe(R.b).f); setCal(R.b,q.c); if(q.c.sft) R.temp(q.f.T[0]); R.step(q.f.P[0],q.f.E[0]); (void)!truncate(x.outfile().c_str(),0); fflush(stdout); R.fin(); fflush(stdout); double want=0; for(int l=1;l<=q.c.nl();l++) want+=q.c.thick[l-1]*vgTheta(q.c.soil(l),q.c.init_psi); want-=before; std::string out=slurp(x.outfile()); size_t pos=out.rfind("Vol change (calibration)"); double v=NAN; if(pos!=std::string::npos) v=strtod(out.c_str()+out.find('=',pos)+1,0); x.cnt("volume_checks"); if(!(std::fabs(v-want)<=1e-8*(1+std::fabs(want)))) x.viol("volume","reported storage change by calibration "+g17(v)+" cm, expected "+g17(want)+"; "+ctx); }
}
// ---------------------------------------------------------------- freeze-thaw
inline void c24(Ctx&x){
  Rng&r=x.r; int k=x.idx%4; GenOpt o; o.sftP=1; o.single=k!=3; Scn q=scn(x,o,span(x,80),0.05); if(k==0){ // warm soil behaves as if uncoupled
    for(auto&T:q.f.T) for(auto&t:T) t=r.p(0.2)?273.15:273.15+r.u(0,25); sampleOf(x,q); Scn u=q; u.c.sft=u.w.sft=false; u.c.soil_z.clear(); u.w.soil_z.clear(); u.f.T.clear(); std::vector<Snap> a=traj(x,q,"a"),b=traj(x,u,"b"); x.cnt("warm_runs"); for(size_t i=0;i<a.size();i++){ x.cnt("compared_states"); std::string d=stateDiff(a[i],b[i],1e-9); if(d.empty()) d=outDiff(a[i],b[i],1e-11); if(!d.empty()){ x.viol("warm","unfrozen soil differs from the uncoupled model: "+d+" at update "+std::to_string(i)+"; "+brief(q.c)); break; } } return; }
  auto law=[&](Ctx&x,const Obs&o){ std::vector<double> e=frozen(o.c,*o.T); for(int l=1;l<=o.c.nl();l++){ x.cnt("factor_checks"); x.cnt(e[l]>=1?"thawed_layers":e[l]<=0.05?"frozen_layers":"partly_frozen_layers"); if(!(std::fabs(e[l]-o.s.ff[l])<=1e-9)) x.viol("factor","conductivity factor of layer "+std::to_string(l)+" is "+g17(o.s.ff[l])+", expected "+g17(e[l])+" for temperatures "+vec(*o.T)+" at depths "+vec(o.c.soil_z)+at(o)); } };
  // the laws that involve conductivity hold with the expected factors
  auto with=[&](void(*m)(Ctx&,const Obs&)){ return Monitor([m](Ctx&x,const Obs&o){ Snap s=o.s; s.ff=frozen(o.c,*o.T); Obs p{o.c,o.a,s,o.Pr,o.Er,o.P,o.E,o.fr,o.prevWet,o.i,o.T}; m(x,p); }); };
  drive(x,q,{law,with(mInf),with(mSpeed),with(mBirthRef),with(mConst),mMass});
}
// ---------------------------------------------------------------- columns the model does not apply to
inline void c25(Ctx&x){
  Rng&r=x.r; Scn q=anyScn(x,40,0.3); q.cal=false; Cfg c=q.c; c.calib=r.p(0.1); int bad=r.i(0,c.nl()-1); int rows=c.soils.size(); int how=r.i(0,3); if(how==0) c.type[bad]=rows+r.i(1,5); else if(how==1) c.type[bad]=r.pick(std::vector<int>{0,-1,-5}); else if(how==2) c.type[bad]=r.i(16,60); else { int mx=0; for(int t:c.type) mx=std::max(mx,t); int pos=0; for(int i=0;i<c.nl();i++) if(c.type[i]==mx) pos=i; (void)pos; c.max_valid=std::max(1,mx-1); if(mx==1){ c.type[bad]=0; } }
  std::string lab="invalid soil type case "+std::to_string(how)+" layers="+vec(c.thick)+" types="; for(int t:c.type) lab+=std::to_string(t)+","; lab+=" rows="+std::to_string(rows)+" max_valid="+std::to_string(c.max_valid)+" ts="+g17(c.ts_s)+" fr="+g17(c.fr_s); x.sample(lab);
  std::string p=write_cfg(c,x.dir,"c"); Run R; R.init(c,p); double tp=0; for(size_t i=0;i<q.f.size();i++){ double P=q.f.P[i],E=q.f.E[i]; R.b.SetValue("precipitation_rate",&P); R.b.SetValue("potential_evapotranspiration_rate",&E); R.b.Update(); double v=P*1e-3*c.fr_s/3600; tp+=v; x.cnt("updates"); if(P>0) x.cnt("wet_updates"); x.sig(mixh(mixh(how,c.nl()),(P>0)|(E>0)<<1));
    auto eq=[&](const char*n,double w){ double g=get1(R.b,n); if(!(std::fabs(g-w)<=1e-12+1e-10*std::fabs(w))) x.viol("pass_through",std::string(n)+" is "+g17(g)+" m, expected "+g17(w)+" m at update "+std::to_string(i+1)+"; "+lab); };
    eq("precipitation",v); eq("surface_runoff",v); eq("total_discharge",v); eq("infiltration",0); eq("percolation",0); eq("actual_evapotranspiration",0); eq("groundwater_to_stream_recharge",0); eq("mass_balance",0); eq("soil_storage",0); double t=R.b.GetCurrentTime(); if(!(std::fabs(t-(i+1)*c.fr_s)<=1e-3)) x.viol("time","time "+g17(t)+" s after "+std::to_string(i+1)+" Updates of "+g17(c.fr_s)+" s; "+lab); }
  R.fin(); fflush(stdout); std::string out=slurp(x.outfile()); struct L{const char*l;double w;}; for(L l:{L{"Total precipitation",100*tp},L{"Surface runoff ",100*tp},L{"Total discharge (Q)",100*tp},L{"Total infiltration",0},L{"Total AET",0},L{"Total percolation",0}}){ size_t pos=out.rfind(l.l); double v=NAN; if(pos!=std::string::npos) v=strtod(out.c_str()+out.find('=',pos)+1,0); x.cnt("summary_lines"); if(!(std::fabs(v-l.w)<=1e-8*(1+l.w))) x.viol("summary",std::string("summary reports '")+l.l+"' = "+g17(v)+" cm, expected "+g17(l.w)+"; "+lab); }
  { auto num=[&](const char*l){ size_t pos=out.rfind(l); return pos==std::string::npos?(double)NAN:strtod(out.c_str()+out.find('=',pos)+1,0); }; double a=num("Initial water in soil"),b=num("Final water in soil"),g=num("Global balance"); x.cnt("closed_reports"); if(!(std::fabs(a-b)<=1e-8*(1+std::fabs(a)))||!(std::fabs(g)<=1e-8*(1+100*tp))) x.viol("closure","the summary of a pass-through run does not close: initial water "+g17(a)+" cm, final water "+g17(b)+" cm, global balance "+g17(g)+" cm; "+lab); }
}
// ---------------------------------------------------------------- shared library for the framework
inline void c28(Ctx&x){
  const char*so=getenv("MON_NGEN"); if(!so) throw std::runtime_error("harness: no library"); void*h=dlopen(so,RTLD_NOW|RTLD_LOCAL|RTLD_DEEPBIND); if(!h) { x.viol("load",std::string("cannot load the framework library: ")+dlerror()); return; }
  auto mk=(bmi::Bmi*(*)())dlsym(h,"bmi_model_create"); auto del=(void(*)(bmi::Bmi*))dlsym(h,"bmi_model_destroy"); if(!mk||!del){ x.viol("symbols","the library does not export bmi_model_create and bmi_model_destroy"); return; }
  Rng&r=x.r; Scn q=anyScn(x,50); Cfg c=q.c; bool past=r.p(0.5); Scn w=q; if(past){ double e=(r.p(0.75)?r.u(0.3,0.9)*q.f.size():r.u(0.02,1.5))*c.fr_s/3600; w.c.end_h=w.w.end_h=e; } sampleOf(x,q); std::vector<Snap> ref=traj(x,q,"ref");
  std::string p=write_cfg(w.cal?w.w:w.c,x.dir,"so"); int nm=r.i(1,2); std::vector<bmi::Bmi*> b; for(int i=0;i<nm;i++){ b.push_back(mk()); b[i]->Initialize(p); }
  static const char*N[]={"precipitation","potential_evapotranspiration","actual_evapotranspiration","surface_runoff","giuh_runoff","soil_storage","total_discharge","infiltration","percolation","groundwater_to_stream_recharge"}; auto val=[](const Snap&s,int j){ double v[]={s.P,s.E,s.A,s.R,s.G,s.S,s.Q,s.I,s.D,s.W}; return v[j]; };
  if(q.cal) for(auto*m:b){ int n=c.nl(); std::vector<double> v(n); auto put=[&](const char*nm2,std::function<double(const Soil&)> g){ for(int l=1;l<=n;l++) v[l-1]=g(c.soil(l)); m->SetValue(nm2,v.data()); }; put("smcmax",[](const Soil&s){return s.the;}); put("smcmin",[](const Soil&s){return s.thr;}); put("van_genuchten_n",[](const Soil&s){return s.n;}); put("van_genuchten_alpha",[](const Soil&s){return s.alpha;}); put("hydraulic_conductivity",[](const Soil&s){return s.Ks;}); double fc=c.fc,pm=c.pond_max; m->SetValue("field_capacity",&fc); m->SetValue("ponded_depth_max",&pm); }
  if(past) x.cnt("past_end_runs"); x.cnt("library_runs"); bool stop=false;
  for(size_t i=0;i<q.f.size()&&!stop;i++) for(auto*m:b){ double P=q.f.P[i],E=q.f.E[i]; if(c.sft) m->SetValue("soil_temperature_profile",(void*)q.f.T[i].data()); m->SetValue("precipitation_rate",&P); m->SetValue("potential_evapotranspiration_rate",&E); m->Update(); const Snap&s=ref[i+1]; x.cnt("compared_updates"); if(past&&s.t>w.c.end_h*3600) x.cnt("updates_past_end");
      std::string d; for(int j=0;j<10;j++){ double v=NAN; m->GetValue(N[j],&v); if(!(std::fabs(v-val(s,j))<=1e-9)){ d=std::string(N[j])+" "+g17(v)+" vs "+g17(val(s,j)); break; } } int nw=0; m->GetValue("soil_num_wetting_fronts",&nw); if(d.empty()&&nw!=(int)s.f.size()) d="number of fronts"; if(d.empty()){ std::vector<double> th(nw),dz(nw); m->GetValue("soil_moisture_wetting_fronts",th.data()); m->GetValue("soil_depth_wetting_fronts",dz.data()); for(int j=0;j<nw;j++) if(!(std::fabs(th[j]-s.f[j].theta)<=1e-7)||!(std::fabs(100*dz[j]-s.f[j].depth)<=1e-5)) d="profile of front "+std::to_string(j+1); } if(d.empty()&&!(std::fabs(m->GetCurrentTime()-s.t)<=1e-3)) d="time "+g17(m->GetCurrentTime())+" vs "+g17(s.t);
      if(!d.empty()){ x.viol("library","framework library differs from the in-process model: "+d+" at update "+std::to_string(i+1)+(past?" (end time "+g17(w.c.end_h*3600)+" s)":"")+"; "+brief(c)); stop=true; break; } }
  for(auto*m:b){ m->Finalize(); del(m); }
}
// ---------------------------------------------------------------- rest state
inline void c29(Ctx&x){
  GenOpt o; o.sftP=0.15; o.wildP=0.4; o.single=x.r.p(0.3); if(x.r.p(0.15)) o.soilMode=2; Scn q=scn(x,o,span(x,x.r.i(40,120)),0.1); for(auto&P:q.f.P) P=0; for(auto&E:q.f.E) E=0; double tol=q.c.kind[1]=='2'?1e-6:1e-8; Snap first; bool have=false;
  drive(x,q,{[&](Ctx&x,const Obs&o){ if(!have){ first=o.a; have=true; } x.cnt("rest_checks"); x.sig(mixh(mixh(o.c.nl(),(int)(10*std::log(o.c.init_psi))),hstr(g17(o.c.thick[0])))); if(o.s.I!=0||o.s.R!=0||o.s.G!=0||o.s.Q!=0||o.s.P!=0||o.s.E!=0||!(std::fabs(o.s.A)<=1e-9)||!(std::fabs(o.s.D)<=1e-9)||o.s.pond!=0) x.viol("flux","a column at rest has fluxes: infiltration "+g17(o.s.I)+" ET "+g17(o.s.A)+" percolation "+g17(o.s.D)+" runoff "+g17(o.s.R)+at(o));
    if(o.s.f.size()!=first.f.size()){ x.viol("fronts","a column at rest gains or loses fronts"+at(o)); return; } for(size_t j=0;j<o.s.f.size();j++){ double a=std::fabs(o.s.f[j].theta-first.f[j].theta),b=std::fabs(o.s.f[j].depth-first.f[j].depth); x.met("drift_theta",a); x.met("drift_depth",b); if(!(a<=tol&&b<=1e-9)) x.viol("drift","a column at rest changes: front "+std::to_string(j+1)+" moisture "+g17(first.f[j].theta)+" -> "+g17(o.s.f[j].theta)+", depth "+g17(first.f[j].depth)+" -> "+g17(o.s.f[j].depth)+at(o)); } }});
}
} // namespace mon
