// Broken inputs: configurations and forcings that must be refused.
#pragma once
#include "scenarios.hpp"
namespace mon {
struct Broken { Scn q; Cfg c; std::string what; std::function<void()> run; };
inline Broken breakInput(Ctx&x,int k){
  Scn q=anyScn(x,3,0.3); q.cal=false; Cfg c=q.c; Rng&r=x.r; std::string sp=x.dir+"/s.dat"; spit(sp,soil_table(c)); auto L=config_lines(c,sp); std::string what; bool update=false; double P=1,E=0.1; std::string path=x.dir+"/c.txt";
  auto drop=[&](const std::string&key){ what="without "+key; std::vector<std::string> M; for(auto&l:L) if(l.compare(0,key.size()+1,key+"=")) M.push_back(l); L=M; };
  auto set=[&](const std::string&key,const std::string&val){ what=key+"="+val; bool f=false; for(auto&l:L) if(!l.compare(0,key.size()+1,key+"=")){ l=key+"="+val; f=true; } if(!f) L.push_back(key+"="+val); };
  static const char*MK[]={"soil_params_file","layer_thickness","initial_psi","timestep","endtime","forcing_resolution","layer_soil_type","wilting_point_psi","field_capacity_psi","giuh_ordinates"};
  if(k<10) drop(MK[k]);
  else if(k==10){ int j=r.i(0,4); if(j==0&&c.nl()<2) j=1; if(j==0){ std::string s; for(int i=0;i+1<c.nl();i++) s+=(i?",":"")+std::to_string(c.type[i]); set("layer_soil_type",s); what="fewer soil types than layers: "+s; } else if(j==1){ set("soil_params_file",x.dir+"/missing.dat"); what="nonexistent soil table"; } else if(j==2){ path=x.dir+"/missing.txt"; what="nonexistent configuration file"; } else if(j==3){ path=""; what="no configuration file named"; } else { L.clear(); what="empty configuration file"; } }
  else if(k==11){ std::string tb=soil_table(c); int row=r.i(1,(int)c.soils.size()); std::vector<std::string> rows; { std::istringstream is(tb); std::string l; while(std::getline(is,l)) rows.push_back(l); } int used=0; for(int t:c.type) used=std::max(used,t); row=r.i(1,used); int j=r.i(0,2); if(j==0){ rows[row]=rows[row].substr(0,rows[row].rfind(' ')); what="soil row "+std::to_string(row)+" lacks a value"; } else if(j==1){ rows[row]="\"text only\""; what="soil row without numbers"; } else { size_t p=rows[row].find(' '); rows[row]=rows[row].substr(0,p)+" abc"+rows[row].substr(rows[row].find(' ',p+1)); what="soil row with a word instead of a number"; } std::string o; for(auto&l:rows) o+=l+"\n"; spit(sp,o); }
  else if(k==12){ static const char*B[]={"use_closed_form_G","adaptive_timestep","sft_coupled","calib_params"}; set(B[r.i(0,3)],r.pick(std::vector<std::string>{"maybe","yes","TRUE","2",""})); }
  else if(k==13){ int j=r.i(0,4); if(j==0){ c.sft=true; c.soil_z.clear(); L=config_lines(c,sp); bool f=false; for(auto&l:L) if(!l.compare(0,11,"sft_coupled")) f=true; if(!f) L.push_back("sft_coupled=true"); what="sft_coupled without soil_z"; } else if(j==1) set(r.pick(std::vector<std::string>{"timestep","forcing_resolution","endtime"}),r.pick(std::vector<std::string>{"0[sec]","-300[sec]"})); else if(j==2){ std::string key=r.pick(std::vector<std::string>{"timestep","forcing_resolution","endtime"}); std::vector<std::string> u={"5[week]","300[seconds]","1[year]","300[ms]","1[hour]","1[hours]","2[hrs]","5[minutes]","5[mins]","300[secs]","30[m]","1[H]","1[]","1[days]"}; if(key!="endtime"){ u.push_back("1[d]"); u.push_back("1[day]"); } set(key,r.pick(u)); } else if(j==3) set(r.pick(std::vector<std::string>{"initial_psi","timestep","endtime","forcing_resolution","wilting_point_psi","field_capacity_psi","ponded_depth_max"}),r.pick(std::vector<std::string>{"abc","","-"})); else { set(r.pick(std::vector<std::string>{"layer_thickness","giuh_ordinates"}),r.pick(std::vector<std::string>{"abc","1,x"})); } }
  else if(k==15){ what="sft_coupled, a layer without temperature depth"; c.soil_z.clear(); addTemp(r,c); int miss=r.i(1,c.nl()); std::vector<double> z; bool deep=r.p(0.6); for(double v:c.soil_z) if(deep?v<=c.cum(miss-1):(v<=c.cum(miss-1)||v>c.cum(miss))) z.push_back(v); if(z.empty()) z.push_back(c.cum(c.nl())+5); c.soil_z=z; L=config_lines(c,sp); }
  else { update=true; int j=r.i(0,3); if(j==0){ what="Update without precipitation and PET"; P=NAN; } else if(j==1){ what="negative precipitation"; P=-r.lu(1e-6,10); } else if(j==2){ what="negative PET"; E=-r.lu(1e-6,10); } else { what="Update without precipitation"; P=NAN; E=NAN; } }
  if(r.p(0.3)) for(int i=(int)L.size()-1;i>0;i--) std::swap(L[i],L[r.next()%(i+1)]);
  spit(x.dir+"/c.txt",join(L)); x.sample(what+"; "+brief(c)); x.sig(hstr(what.substr(0,60)));
  bool prior=r.p(0.5); Scn q0=anyScn(x,2,0.3); q0.cal=false; q0.w=q0.c; // in half of the cases another, valid column was set up before in the same process
  Broken o; o.q=q; o.c=c; o.what=what; std::string dir=x.dir;
  o.run=[=](){ Run v0; if(prior){ v0.init(q0.c,write_cfg(q0.c,dir,"prior")); } Run v; v.init(c,path); if(k==15) v.temp(std::vector<double>(c.soil_z.size(),275.0)); if(update&&std::isnan(P)){ if(!std::isnan(E)){ double e=E; v.b.SetValue("potential_evapotranspiration_rate",&e); } v.b.Update(); } else v.step(std::isnan(P)?1:P,E); };
  return o;
}
} // namespace mon
