// Monitoring framework shared by all drivers: seeded case generation, oracles with counters,
// distinct-input accounting, crash/hang attribution, JSON report.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iomanip>
#include <functional>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <limits>
#include <exception>
#include <stdexcept>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>

typedef long double LD;

namespace mon {

struct Rng {
	uint64_t s[2];
	static uint64_t sm( uint64_t& x ) { x += 0x9E3779B97F4A7C15ull; uint64_t z=x; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
	explicit Rng( uint64_t seed ) { s[0]=sm(seed); s[1]=sm(seed); }
	uint64_t next() { uint64_t a=s[0], b=s[1]; s[0]=b; a^=a<<23; s[1]=a^b^(a>>18)^(b>>5); return s[1]+b; }
	// integer in [a,b]
	int64_t i( int64_t a, int64_t b ) { return a + (int64_t)(next() % (uint64_t)(b-a+1)); }
	bool coin( int n=2 ) { return next()%n==0; }
	double u() { return (next()>>11) * (1.0/9007199254740992.0); }
	double d( double a, double b ) { return a+(b-a)*u(); }
	template<typename T> const T& pick( const std::vector<T>& v ) { return v[next()%v.size()]; }
	template<typename T> void shuffle( std::vector<T>& v ) { for( size_t k=v.size(); k>1; k-- ) std::swap( v[k-1], v[next()%k] ); }
};

inline uint64_t fnv( const char* p, size_t n, uint64_t h=1469598103934665603ull ) { for( size_t k=0;k<n;k++ ) { h^=(unsigned char)p[k]; h*=1099511628211ull; } return h; }
inline uint64_t fnv( const std::string& s ) { return fnv( s.data(), s.size() ); }

struct Progress { char section[128]; uint64_t idx; char input[65536-256]; };

struct Viol { std::string key, section, input, detail; uint64_t idx=0, count=0; };
struct Sec;
struct State {
	std::map<std::string,Viol> viol;
	std::map<std::string,uint64_t> oracle, cls, skipped;
	std::vector<uint64_t> hashes;
	std::map<std::string,std::vector<std::string>> samples;
	std::map<std::string,uint64_t> cases, nontriv;
	Progress* prog = nullptr;
	bool verbose=false;
};
inline State& st() { static State s; return s; }

struct Case {
	Rng rng;
	std::string section;
	uint64_t idx;
	std::string desc;
	bool isTrivial=false;
	Case( uint64_t seed, std::string sec, uint64_t i ): rng(seed), section(sec), idx(i) {}
	void put( const std::string& s )
	{
		desc += s;
		if( st().prog ) { auto n=std::min( desc.size(), sizeof(st().prog->input)-1 ); std::memcpy( st().prog->input, desc.data(), n ); st().prog->input[n]=0; }
	}
	template<typename... A> void in( const char* name, const A&... a )
	{
		std::ostringstream o; o << std::setprecision(17) << name << "="; bool first=true;
		((o << (first?"":",") << a, first=false), ...);
		o << "; "; put( o.str() );
	}
	void trivial() { isTrivial=true; }
	void cls( const std::string& s ) { st().cls[section+":"+s]++; }
	void skip( const std::string& s ) { st().skipped[section+":"+s]++; isTrivial=true; }
	void fail( const std::string& key, const std::string& detail )
	{
		auto full = section + "/" + key;
		auto& v = st().viol[full];
		if( v.count==0 ) { v.key=full; v.section=section; v.input=desc; v.detail=detail; v.idx=idx; }
		v.count++;
		if( st().verbose ) std::cout << "FAIL " << full << " case " << idx << "\n  input: " << desc << "\n  detail: " << detail << "\n";
	}
	bool chk( const std::string& key, bool ok, const std::string& detail="" )
	{
		st().oracle[section+"/"+key]++;
		if( !ok ) fail( key, detail );
		return ok;
	}
	template<typename F> bool chkf( const std::string& key, bool ok, F f )
	{
		st().oracle[section+"/"+key]++;
		if( !ok ) { std::ostringstream o; o << std::setprecision(17); f(o); fail( key, o.str() ); }
		return ok;
	}
	// |got-ref| <= tol ; NaN fails
	bool near( const std::string& key, LD got, LD ref, LD tol )
	{
		st().oracle[section+"/"+key]++;
		bool ok = std::fabs( got-ref ) <= tol;
		if( !ok ) { std::ostringstream o; o << std::setprecision(20) << "got " << got << " expected " << ref << " tol " << tol; fail( key, o.str() ); }
		return ok;
	}
	template<typename A,typename B> bool eq( const std::string& key, const A& got, const B& ref )
	{
		st().oracle[section+"/"+key]++;
		bool ok = (got==ref);
		if( !ok ) { std::ostringstream o; o << std::setprecision(17) << "got " << got << " expected " << ref; fail( key, o.str() ); }
		return ok;
	}
	// f must throw a std::runtime_error
	template<typename F> bool throws( const std::string& key, F f )
	{
		st().oracle[section+"/"+key]++;
		try { f(); }
		catch( const std::runtime_error& ) { return true; }
		catch( const std::exception& e ) { fail( key, std::string("wrong exception type: ")+e.what() ); return false; }
		catch( ... ) { fail( key, "non-standard exception" ); return false; }
		fail( key, "no exception thrown" );
		return false;
	}
	// f must not throw
	template<typename F> bool quiet( const std::string& key, F f )
	{
		st().oracle[section+"/"+key]++;
		try { f(); return true; }
		catch( const std::exception& e ) { fail( key, std::string("unexpected exception: ")+e.what() ); }
		catch( ... ) { fail( key, "unexpected non-standard exception" ); }
		return false;
	}
};

struct Sec { std::string name; uint64_t n; std::function<void(Case&)> f; };
inline std::vector<Sec>& secs() { static std::vector<Sec> v; return v; }
struct Reg { Reg( const char* n, uint64_t c, std::function<void(Case&)> f ) { secs().push_back( {n,c,f} ); } };

#define SECTION_CAT2(a,b) a##b
#define SECTION_CAT(a,b) SECTION_CAT2(a,b)
// SECTION(name, number of cases in the quick tier) { body using c }
#define SECTION(name,count) \
	static void SECTION_CAT(sec_fn_,name)( mon::Case& c ); \
	static mon::Reg SECTION_CAT(sec_reg_,name)( #name, count, SECTION_CAT(sec_fn_,name) ); \
	static void SECTION_CAT(sec_fn_,name)( mon::Case& c )

inline std::string jesc( const std::string& s )
{
	std::string o;
	for( unsigned char ch: s )
	{
		if( ch=='"' || ch=='\\' ) { o+='\\'; o+=ch; }
		else if( ch<0x20 || ch>=0x7f ) { char b[8]; snprintf( b, 8, "\\u%04x", ch ); o+=b; }
		else o+=ch;
	}
	return o;
}

inline void onAlarm( int ) { const char m[]="MON-WATCHDOG: case did not finish\n"; (void)!write(2,m,sizeof(m)-1); _exit(78); }

inline int run( int argc, char** argv )
{
	uint64_t seed=1; double scale=1; std::string only, out, progf, hashf; long long single=-1; int shard=0, nsh=1; unsigned wd=60;
	std::set<std::string> skip;
	for( int k=1;k<argc;k++ )
	{
		std::string a=argv[k]; auto nx=[&]{ return std::string( argv[++k] ); };
		if( a=="--seed" ) seed=std::stoull(nx());
		else if( a=="--scale" ) scale=std::stod(nx());
		else if( a=="--section" ) only=nx();
		else if( a=="--case" ) single=std::stoll(nx());
		else if( a=="--out" ) out=nx();
		else if( a=="--hashes" ) hashf=nx();
		else if( a=="--progress" ) progf=nx();
		else if( a=="--watchdog" ) wd=std::stoul(nx());
		else if( a=="--skip" ) { std::istringstream is(nx()); std::string t; while( std::getline(is,t,',') ) skip.insert(t); }
		else if( a=="--shard" ) { auto t=nx(); sscanf( t.c_str(), "%d/%d", &shard, &nsh ); }
		else if( a=="-v" ) st().verbose=true;
		else if( a=="--list" ) { for( auto& s: secs() ) std::cout << s.name << ' ' << s.n << '\n'; return 0; }
	}
	if( !progf.empty() )
	{
		int fd=open( progf.c_str(), O_RDWR|O_CREAT|O_TRUNC, 0644 );
		if( fd>=0 && ftruncate( fd, sizeof(Progress) )==0 )
			st().prog = (Progress*)mmap( nullptr, sizeof(Progress), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0 );
		if( fd>=0 ) close(fd);
	}
	signal( SIGALRM, onAlarm );
	std::ostream cer( std::cerr.rdbuf() );
	for( auto& s: secs() )
	{
		if( !only.empty() && s.name!=only ) continue;
		if( skip.count(s.name) ) continue;
		uint64_t n = (uint64_t)std::ceil( s.n*scale );
		if( s.n==1 ) n=1; // directed sections
		uint64_t b=0, e=n;
		if( single>=0 ) { b=single; e=single+1; }
		struct timeval t0,t1; gettimeofday(&t0,nullptr);
		for( uint64_t k=b;k<e;k++ )
		{
			if( single<0 && (int)(k%nsh)!=shard ) continue;
			uint64_t h = fnv( s.name ) ^ (seed*0x9E3779B97F4A7C15ull) ^ (k*0xD1B54A32D192ED03ull);
			Case c( h, s.name, k );
			if( st().prog ) { std::strncpy( st().prog->section, s.name.c_str(), 127 ); st().prog->idx=k; st().prog->input[0]=0; }
			alarm( wd );
			try { s.f( c ); }
			catch( const std::exception& ex ) { c.fail( "unexpected-exception", ex.what() ); }
			catch( ... ) { c.fail( "non-standard-exception", "" ); }
			st().cases[s.name]++;
			if( !c.isTrivial ) { st().nontriv[s.name]++; st().hashes.push_back( fnv(c.desc) ^ fnv(s.name) ); }
			auto& sv=st().samples[s.name];
			if( sv.size()<1 && !c.isTrivial && !c.desc.empty() ) sv.push_back( c.desc.substr(0,400) );
		}
		alarm( 0 );
		gettimeofday(&t1,nullptr);
		if( single<0 ) cer << s.name << ": " << (t1.tv_sec-t0.tv_sec)+(t1.tv_usec-t0.tv_usec)*1e-6 << " s\n";
	}
	if( !hashf.empty() ) { FILE* f=fopen( hashf.c_str(), "wb" ); if(f){ fwrite( st().hashes.data(), 8, st().hashes.size(), f ); fclose(f);} }
	std::ostringstream o;
	auto mp=[&]( const char* nm, const std::map<std::string,uint64_t>& m ) { o << "\"" << nm << "\":{"; bool f=true; for( auto& p: m ) { o << (f?"":",") << "\"" << jesc(p.first) << "\":" << p.second; f=false; } o << "}"; };
	o << "{"; mp("cases",st().cases); o<<","; mp("nontrivial",st().nontriv); o<<","; mp("oracles",st().oracle); o<<","; mp("classes",st().cls); o<<","; mp("skipped",st().skipped);
	o << ",\"samples\":["; { bool f=true; for( auto& p: st().samples ) for( auto& s: p.second ) { o << (f?"":",") << "\"" << jesc(p.first+": "+s) << "\""; f=false; } }
	o << "],\"violations\":["; { bool f=true; for( auto& p: st().viol ) { auto& v=p.second; o << (f?"":",") << "{\"key\":\"" << jesc(v.key) << "\",\"section\":\"" << jesc(v.section) << "\",\"case\":" << v.idx << ",\"count\":" << v.count << ",\"input\":\"" << jesc(v.input) << "\",\"detail\":\"" << jesc(v.detail) << "\"}"; f=false; } }
	o << "]}\n";
	if( out.empty() )
	{
		std::cout << "cases:"; for( auto& p: st().cases ) std::cout << ' ' << p.first << '=' << p.second; std::cout << "\n";
		for( auto& p: st().viol ) { auto& v=p.second; std::cout << "VIOL " << v.key << " x" << v.count << " case " << v.idx << "\n  input: " << v.input << "\n  detail: " << v.detail << "\n"; }
	}
	else { std::ofstream f(out); f << o.str(); }
	return st().viol.empty() ? 0 : 3;
}

} // namespace mon

#define MON_MAIN int main( int argc, char** argv ) { return mon::run( argc, argv ); }
