// Native runtime of the harness API: runs the harness on ordinary g++ builds with inputs from a file.
// usage: prog CASES   where each line is   <scenario> <tier> <kf,list|-> name=value ...
// prints one line per case:  OK <obs> <nobs> | PRUNED | VIOLATION <msg> | KNOWN... (KNOWN lines are not outcomes)
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <exception>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
typedef uint64_t u64; typedef uint32_t u32;
static std::map<std::string,u64> in; static std::map<std::string,int> occ; static u32 scen,tier; static std::set<std::string> kf; static u64 obs=0xcbf29ce484222325ull,nobs=0; static int ofd; static std::string g_note;
[[noreturn]] static void done(std::string s){ s+="\n"; (void)!write(ofd,s.data(),s.size()); _exit(0); }
static std::string nm(char const* n){ int k=occ[n]++; return k?std::string(n)+"#"+std::to_string(k):std::string(n); }
extern "C" {
void sym_main();
u64 sym_range(char const* name,u64 lo,u64 hi){ if(lo==hi) return lo; auto it=in.find(nm(name)); u64 v=it==in.end()?lo:it->second; return v<lo||v>hi?lo:v; }
u64 sym_fork(u64 v){ return v; }
u64 sym_bits(char const* name,u32){ auto it=in.find(nm(name)); return it==in.end()?0:it->second; }
u64 sym_oneof(char const* name,u64 const* v,u32 n){ if(n==1) return v[0]; auto it=in.find(nm(name)); u64 x=it==in.end()?v[0]:it->second; for(u32 i=0;i<n;++i) if(v[i]==x) return x; return v[0]; }
void sym_assume(bool c){ if(!c) done("PRUNED"); }
void sym_check(bool c,char const* msg){ if(!c) done(std::string("VIOLATION ")+msg); }
void sym_check_kf(bool c,bool known,char const* id,char const* msg){ if(!c&&!(known&&kf.count(id))) done(std::string("VIOLATION ")+msg); if(!c) g_note+=std::string(" KNOWN:")+id; }
void sym_obs(u64 v){ obs=(obs^v)*1099511628211ull; obs^=obs>>31; ++nobs; }
void sym_reach(char const*){}
u32 sym_scenario(){ return scen; }
u32 sym_tier(){ return tier; }
}
int main(int argc,char** argv){
  std::ifstream f(argv[1]); std::string line; unsigned tmo=argc>2?atoi(argv[2]):60; 
  while(std::getline(f,line)){
    int p[2]; if(pipe(p)) return 3; fflush(stdout);
    pid_t pid=fork();
    if(!pid){ close(p[0]); ofd=p[1]; alarm(tmo); int dn=open("/dev/null",O_WRONLY); dup2(dn,1); if(!getenv("SYMX_STDERR")) dup2(dn,2);
      std::istringstream s(line); std::string t; s>>scen>>tier>>t; { std::string c; for(char ch:t+","){ if(ch==','){ if(!c.empty()) kf.insert(c); c.clear(); } else c+=ch; } }
      while(s>>t){ auto e=t.find('='); in[t.substr(0,e)]=std::stoull(t.substr(e+1)); }
      try{ sym_main(); } catch(std::exception const& e){ done(std::string("VIOLATION uncaught exception: ")+e.what()); } catch(...){ done("VIOLATION uncaught exception"); }
      char b[64]; snprintf(b,64,"OK %lx %lu",obs,nobs); done(b+g_note); }
    close(p[1]); std::string out; char b[4096]; ssize_t r; while((r=read(p[0],b,sizeof b))>0) out.append(b,r); close(p[0]); int ws; waitpid(pid,&ws,0);
    if(out.empty()) printf("VIOLATION abnormal termination (%s %d)\n",WIFSIGNALED(ws)?"signal":"exit",WIFSIGNALED(ws)?WTERMSIG(ws):WEXITSTATUS(ws)); else fputs(out.c_str(),stdout); }
  return 0;
}
