// Replays scripts of GDX API calls and records what the library answered.
//   driver SCRIPTS.ndjson OUT.ndjson SCRATCHDIR [timeout seconds per script]
// One script per line: {"id":..., "ev":[{"x":handle,"o":op,"a":[...]},...]}.
// The output repeats the script with "r" (everything the call returned) and "ec" (gdxErrorCount) per event.
// Built from /repo's sources either against the C++ class (default) or, with -DVIA_C, through the generated
// C API (gdxcc.c + shared library) by way of gdxcppwrap.hpp, or, with -DVIA_D, through the library's entry points for
// other languages (dwrap.hpp).
#if defined( VIA_D )
#include "dwrap.hpp"
#elif defined( VIA_C )
#include "gdxcppwrap.hpp"
extern "C" { extern void ( *gdxSetLoadPath )( const char * ), ( *gdxGetLoadPath )( char * ); }
#else
#include "gdx.hpp"
#endif
#include "json.hpp"
#include <cmath>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <zlib.h>
#include <sys/resource.h>
#include <atomic>
#include <thread>
#ifdef IOWRAP
#include "iowrap.hpp"
#endif
using namespace std;

#ifdef THREADS // several scripts at a time, each in a thread of its own
#define TL thread_local
#else
#define TL
#endif
static TL string dir;
static const int ISENT = -1987654321;
static const double VSENT = 1.2345678987654321e-299;
static const char *SSENT = "\x01\x02unset";

static double dOf( const string &t )
{
   uint64_t u = strtoull( t.substr( 0, 16 ).c_str(), nullptr, 16 );
   double d; memcpy( &d, &u, 8 ); return d;
}
static string tOf( double d )
{
   uint64_t u; memcpy( &u, &d, 8 );
   char b[48]; snprintf( b, 48, "%016llX", (unsigned long long) u );
   string s { b };
   if( std::isfinite( d ) && d >= 1e301 ) { snprintf( b, 48, "@%lld", (long long) llround( d / 1e301 ) ); s += b; }
   return s;
}

struct Ints { int v[32]; Ints() { for( int &q: v ) q = ISENT; }
   J j( int mx = 32 ) const { int n = mx; while( n > 0 && v[n - 1] == ISENT ) n--; J r = J::arr(); for( int q = 0; q < n; q++ ) r.push( v[q] ); return r; } };
struct Vals { double v[8]; Vals() { for( double &q: v ) q = VSENT; }
   J j() const { int n = 8; while( n > 0 && v[n - 1] == VSENT ) n--; J r = J::arr(); for( int q = 0; q < n; q++ ) r.push( tOf( v[q] ) ); return r; } };
struct Strs { char b[20][300]; char *p[20]; Strs() { for( int q = 0; q < 20; q++ ) { strcpy( b[q], SSENT ); p[q] = b[q]; } }
   J j() const { int n = 20; while( n > 0 && !strcmp( b[n - 1], SSENT ) ) n--; J r = J::arr(); for( int q = 0; q < n; q++ ) r.push( string( b[q] ) ); return r; } };
struct InStrs { vector<string> s; const char *p[20];
   explicit InStrs( const J &a ) { s.resize( 20 ); for( size_t q = 0; q < a.a.size() && q < 20; q++ ) s[q] = a.a[q].s; for( int q = 0; q < 20; q++ ) p[q] = s[q].c_str(); } };
static void inInts( const J &a, int *v ) { for( int q = 0; q < 20; q++ ) v[q] = q < (int) a.a.size() ? a.a[q].in() : 0; }
static void inVals( const J &a, double *v ) { for( int q = 0; q < 8; q++ ) v[q] = q < (int) a.a.size() ? dOf( a.a[q].s ) : 0.0; }
// a heap buffer of exactly 256 bytes, so that address sanitizer sees overruns
struct Buf { char *p; Buf() : p { new char[256] } { strcpy( p, SSENT ); } ~Buf() { delete[] p; } operator char *() { return p; } string s() const { return p; } };

static TL J recs; static TL int cbDim; static TL int cbLim; static TL bool cbFd;
static J keyJ( const int *k ) { J r = J::arr(); for( int q = 0; q < cbDim; q++ ) r.push( k[q] ); return r; }
static TL int cbNVal;
static J valJ( const double *v ) { J r = J::arr(); for( int q = 0; q < cbNVal; q++ ) r.push( tOf( v[q] ) ); return r; }
static bool addRec( const int *k, const double *v, int fd )
{
   J r = J::obj();
   r.set( "k", keyJ( k ) ).set( "v", valJ( v ) );
   if( cbFd ) r.set( "fd", fd );
   recs.push( r );
   return cbLim < 0 || (int) recs.a.size() < cbLim;
}
static void cbPlain( const int *k, const double *v ) { addRec( k, v, 0 ); }
static int cbFilt( const int *k, const double *v, void * ) { return addRec( k, v, 0 ); }
static int cbEx( const int *k, const double *v, const int fd, void *u ) { *(int *) u += 1; return addRec( k, v, fd ); }
static void cbDom( int raw, int mapped, void *u ) { *(int *) u += 1; J p = J::arr(); p.push( raw ); p.push( mapped ); recs.push( p ); }

using Obj = gdx::TGXFileObj;
static TL map<int, unique_ptr<Obj>> objs;
struct Keys { int k[32]; };
static TL map<int, int> sliceSy;

static string path( const string &s ) { return s.empty() ? s : dir + "/" + s; }

static void cbSetup( Obj &g, int sy, int dimOverride = -1 )
{
   // dimension and number of values of the symbol being read, as the library itself reports them
   Buf id; int dim {}, typ {};
   recs = J::arr(); cbDim = 1; cbNVal = 1;
   int n = sy;
   for( int guard = 0; guard < 50; guard++ )
   {
      if( !g.gdxSymbolInfo( n, id, dim, typ ) ) return;
      cbDim = dim;
      if( typ != 4 ) break;
      Buf tx; int rc, ui;
      g.gdxSymbolInfoX( n, rc, ui, tx );
      n = ui;
   }
   cbNVal = typ == 2 || typ == 3 ? 5 : 1;
   if( dimOverride >= 0 ) cbDim = dimOverride;
}

static string slurp( const string &fn ) { ifstream i( fn, ios::binary ); stringstream b; b << i.rdbuf(); return b.str(); }
// every position at which a compressed block could start, with its inflated text
static J inflated( const string &s )
{
   J l = J::arr();
   vector<unsigned char> buf( 1 << 17 );
   for( size_t p = 0; p + 3 < s.size(); p++ )
   {
      size_t n = (unsigned char) s[p + 1] * 256u + (unsigned char) s[p + 2];
      if( !s[p] || n < 8 || p + 3 + n > s.size() || ( s[p + 3] & 15 ) != 8 ) continue;
      uLongf m = buf.size();
      if( uncompress( buf.data(), &m, (const unsigned char *) s.data() + p + 3, n ) != Z_OK ) continue;
      J e = J::arr(); e.push( (long long) p ); e.push( string( (char *) buf.data(), m ) ); l.push( e );
   }
   return l;
}
static TL J recArgs;// arguments to record instead of the ones given
static void imageArgs( const string &name, const string &bytes ) { recArgs = J::arr(); recArgs.push( name ); recArgs.push( bytes ); recArgs.push( inflated( bytes ) ); }

// tool, arguments, options (for the specification), output file: runs a command line tool in the scripts's directory
static std::map<string, string> entries( const string &d )// the files of a directory and what they contain
{
   std::map<string, string> l; DIR *h = opendir( d.c_str() );
   if( h )
   {
      while( dirent *e = readdir( h ) )
      {
         struct stat sb; string p = d + "/" + e->d_name;
         if( e->d_name[0] != '.' && stat( p.c_str(), &sb ) == 0 ) l[e->d_name] = S_ISREG( sb.st_mode ) ? slurp( p ) : string { "/" };
      }
      closedir( h );
   }
   return l;
}
static TL int leftOver, touched;// new files besides the output file; files that were there and are no longer the same
static int runTool( const J &a )
{
   auto before = entries( dir );
   string exe = string( getenv( "GDX_TOOLS" ) ? getenv( "GDX_TOOLS" ) : "." ) + "/" + a[0].s, so = dir + "/.stdout", out = dir + "/" + a[3].s;
   fflush( nullptr );
   pid_t pid = fork();
   if( pid == 0 )
   {
      alarm( 30 );
      if( chdir( dir.c_str() ) ) _exit( 120 );
      int o = open( so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 ), i = open( "/dev/null", O_RDWR );
      dup2( i, 0 ); dup2( o, 1 ); dup2( i, 2 );
      vector<char *> v; v.push_back( (char *) exe.c_str() );
      for( auto &q: a[1].a ) v.push_back( (char *) q.s.c_str() );
      v.push_back( nullptr );
      execv( exe.c_str(), v.data() ); _exit( 121 );
   }
   int st = 0; waitpid( pid, &st, 0 );
   int rc = WIFEXITED( st ) ? WEXITSTATUS( st ) : 1000 + WTERMSIG( st );
   if( rc == 120 || rc == 121 ) throw runtime_error( "cannot run " + exe );
   J l = J::arr(); string t = slurp( so ), cur;
   for( char c: t ) { if( c == '\n' ) { l.push( cur ); cur.clear(); } else cur += c; }
   if( !cur.empty() ) l.push( cur );
   struct stat sb; bool there = !a[3].s.empty() && stat( out.c_str(), &sb ) == 0;
   string b = there ? slurp( out ) : string {};
   if( a[4].i == 2 )// the text is in the file
   {
      l = J::arr(); cur.clear();
      for( char c: b ) { if( c == '\n' ) { l.push( cur ); cur.clear(); } else cur += c; }
      if( !cur.empty() ) l.push( cur );
      b.clear(); unlink( out.c_str() );
   }
   recArgs = J::arr();
   recArgs.push( a[0].s ); recArgs.push( a[1] ); recArgs.push( a[2] ); recArgs.push( a[3].s ); recArgs.push( rc ); recArgs.push( l );
   recArgs.push( a[4].i ? b : string {} ); recArgs.push( a[4].i ? inflated( b ) : J::arr() ); recArgs.push( there ? 1 : 0 );
   unlink( so.c_str() );
   leftOver = touched = 0;
   auto after = entries( dir );
   for( auto &n: after ) if( !before.count( n.first ) && n.first != a[3].s ) leftOver++;
   for( auto &n: before ) if( n.first != a[3].s && ( !after.count( n.first ) || after[n.first] != n.second ) ) touched++;
   return rc;
}

static J call( int x, const string &op, const J &a );
static TL long long limitN = -1;
static void setLimit( long long n )// in force during calls of the library only
{
   signal( SIGXFSZ, SIG_IGN );
   struct rlimit l; getrlimit( RLIMIT_FSIZE, &l );
   l.rlim_cur = n < 0 ? l.rlim_max : (rlim_t) n; setrlimit( RLIMIT_FSIZE, &l );
}

static J one( int x, const string &op, const J &a )
{
   J r = J::obj();
   auto rc = [&]( long long v ) -> J & { return r.set( "rc", J { v } ); };
   if( op == "Path" ) return rc( 1 );
   #ifdef THREADS
   if( op == "SetEnv" ) return rc( 1 );// settled before the threads start
#endif
   if( op == "SetEnv" ) { setenv( "GDXCOMPRESS", a[0].i ? "1" : "0", 1 ); return rc( 1 ); }
   if( op == "Rm" ) { unlink( path( a[0].s ).c_str() ); return rc( 1 ); }
   if( op == "Cp" ) { ifstream i( path( a[0].s ), ios::binary ); ofstream o( path( a[1].s ), ios::binary ); stringstream b; b << i.rdbuf(); o << b.str(); return rc( 1 ); }
   if( op == "Junk" ) { ofstream o( path( a[0].s ), ios::binary ); o << a[1].s; return rc( 1 ); }
   if( op == "Dump" ) { imageArgs( a[0].s, slurp( path( a[0].s ) ) ); return rc( 1 ); }
   if( op == "PutHole" )// path, image, the same with places for a hole, where, how long
   {
      string p = path( a[0].s ); int64_t at = a[3].i, len = stoll( a[4].s ); const string &b = a[2].s;
      int fd = open( p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600 );
      bool ok = fd >= 0 && pwrite( fd, b.data(), at, 0 ) == at && pwrite( fd, b.data() + at, b.size() - at, at + len ) == (ssize_t) ( b.size() - at );
      if( fd >= 0 ) ok = !close( fd ) && ok;
      if( !ok ) { ofstream o( p, ios::binary ); o << a[1].s; }// no such files here
      string d = a[0].s, q = a[1].s; imageArgs( d, q );
      return rc( 1 );
   }
   if( op == "PutBytes" ) { ofstream o( path( a[0].s ), ios::binary ); o << a[1].s; imageArgs( a[0].s, a[1].s ); return rc( 1 ); }
   if( op == "Cut" )// target, source, length: of the whole if >= 0, else that many bytes less; in thousandths if a[3]
   {
      string b = slurp( path( a[1].s ) );
      long long n = a[2].i;
      if( a[3].i ) n = (long long) b.size() * n / 1000;
      if( n < 0 ) n += (long long) b.size();
      if( n < 0 ) n = 0;
      if( n > (long long) b.size() ) n = (long long) b.size();
      b.resize( n );
      { ofstream o( path( a[0].s ), ios::binary ); o << b; }
      imageArgs( a[0].s, b ); recArgs.push( a[1].s );
      return rc( 1 );
   }
#ifdef IOWRAP
   if( op == "IoSnap" )// target, source, number of writes performed, thousandths of the next one: the file as it was at that time
   {
      string b = iow::initial[a[1].s]; auto &l = iow::log[a[1].s];
      auto put = [&]( const iow::Ent &e, size_t n ) { if( b.size() < e.off + n ) b.resize( e.off + n ); b.replace( e.off, n, e.b, 0, n ); };
      size_t k = min<size_t>( a[2].i, l.size() );
      for( size_t i = 0; i < k; i++ ) put( l[i], l[i].b.size() );
      if( k < l.size() && a[3].i ) put( l[k], l[k].b.size() * a[3].i / 1000 );
      { ofstream o( path( a[0].s ), ios::binary ); o << b; }
      // is it, byte for byte, the file as it is in the end?
      imageArgs( a[0].s, b ); recArgs.push( a[1].s ); recArgs.push( J { (long long) ( b == slurp( path( a[1].s ) ) ) } );
      return rc( 1 ).set( "of", (int) l.size() );
   }
   if( op == "Fault" ) { iow::fault = a[0].s; iow::nth = a[1].in(); iow::count = a[2].in(); return rc( 1 ); }
   if( op == "FaultOff" ) { iow::fault.clear(); return rc( 1 ).set( "fired", iow::fired ); }
#endif
   if( op == "Limit" )// files cannot grow beyond this many bytes (-1: as they like)
   {
      limitN = a[0].i;
      return rc( 1 );
   }
   if( op == "Tool" ) { int q = runTool( a ); return rc( q ).set( "left", leftOver ).set( "touched", touched ); }
   if( op == "PutText" ) { ofstream o( path( a[0].s ), ios::binary ); o << a[1].s; return rc( 1 ); }
#if defined( VIA_D )
   if( op == "SetLoadPath" ) { gdx::dlib.f<void ( * )( const char * )>( "c__gdxsetloadpath" )( a[0].s.c_str() ); return rc( 1 ); }
   if( op == "GetLoadPath" ) { Buf b; gdx::dlib.f<void ( * )( char * )>( "c__gdxgetloadpath" )( b ); return rc( 1 ).set( "s", b.s() ); }
#elif defined( VIA_C )
   if( op == "SetLoadPath" ) { gdxSetLoadPath( a[0].s.c_str() ); return rc( 1 ); }
   if( op == "GetLoadPath" ) { Buf b; gdxGetLoadPath( b ); return rc( 1 ).set( "s", b.s() ); }
#endif
   if( op == "Mkdir" ) { mkdir( path( a[0].s ).c_str(), 0700 ); return rc( 1 ); }
   if( op == "Create" )
   {
      string m; objs[x] = make_unique<Obj>( m );
      return rc( 1 );
   }
   auto it = objs.find( x );
   if( it == objs.end() ) throw runtime_error( "no object" );
   Obj &g = *it->second;
   if( op == "Destroy" ) { objs.erase( it ); return rc( 1 ); }
   auto err = [&]( int c, int e ) { rc( c ).set( "err", e ).set( "errnz", e ? 1 : 0 ); return r; };
   int e = ISENT, n = ISENT, m = ISENT, q = ISENT;
   if( op == "OpenWrite" ) { int c = g.gdxOpenWrite( path( a[0].s ).c_str(), a[1].s.c_str(), e ); return err( c, e ); }
   if( op == "OpenWriteEx" ) { int c = g.gdxOpenWriteEx( path( a[0].s ).c_str(), a[1].s.c_str(), a[2].in(), e ); return err( c, e ); }
   if( op == "OpenRead" ) { int c = g.gdxOpenRead( path( a[0].s ).c_str(), e ); return err( c, e ); }
   if( op == "OpenReadEx" ) { int c = g.gdxOpenReadEx( path( a[0].s ).c_str(), a[1].in(), e ); return err( c, e ); }
   if( op == "OpenAppend" ) { int c = g.gdxOpenAppend( path( a[0].s ).c_str(), a[1].s.c_str(), e ); return err( c, e ); }
   if( op == "Close" ) { int c = g.gdxClose(); return rc( c ).set( "rcnz", c ? 1 : 0 ); }
   if( op == "WriteRawStart" ) return rc( g.gdxDataWriteRawStart( a[0].s.c_str(), a[1].s.c_str(), a[2].in(), a[3].in(), a[4].in() ) );
   if( op == "WriteMapStart" ) return rc( g.gdxDataWriteMapStart( a[0].s.c_str(), a[1].s.c_str(), a[2].in(), a[3].in(), a[4].in() ) );
   if( op == "WriteStrStart" ) return rc( g.gdxDataWriteStrStart( a[0].s.c_str(), a[1].s.c_str(), a[2].in(), a[3].in(), a[4].in() ) );
   if( op == "WriteRawStartKB" )
   {
      int mn[20], mx[20]; inInts( a[5], mn ); inInts( a[6], mx );
      return rc( g.gdxDataWriteRawStartKeyBounds( a[0].s.c_str(), a[1].s.c_str(), a[2].in(), a[3].in(), a[4].in(), mn, mx ) );
   }
   if( op == "WriteRaw" || op == "WriteMap" )
   {
      int k[20]; double v[8]; inInts( a[0], k ); inVals( a[1], v );
      return rc( op == "WriteRaw" ? g.gdxDataWriteRaw( k, v ) : g.gdxDataWriteMap( k, v ) );
   }
   if( op == "WriteStr" ) { InStrs k { a[0] }; double v[8]; inVals( a[1], v ); return rc( g.gdxDataWriteStr( k.p, v ) ); }
   if( op == "WriteDone" ) return rc( g.gdxDataWriteDone() );
   if( op == "SetDomain" ) { InStrs k { a[0] }; return rc( g.gdxSymbolSetDomain( k.p ) ); }
   if( op == "SetDomainX" ) { InStrs k { a[1] }; return rc( g.gdxSymbolSetDomainX( a[0].in(), k.p ) ); }
   if( op == "GetDomain" ) { Ints k; int c = g.gdxSymbolGetDomain( a[0].in(), k.v ); return rc( c ).set( "l", k.j() ); }
   if( op == "GetDomainX" ) { Strs k; int c = g.gdxSymbolGetDomainX( a[0].in(), k.p ); return rc( c ).set( "l", k.j() ); }
   if( op == "AddAlias" ) return rc( g.gdxAddAlias( a[0].s.c_str(), a[1].s.c_str() ) );
   if( op == "AddComment" ) return rc( g.gdxSymbolAddComment( a[0].in(), a[1].s.c_str() ) );
   if( op == "GetComment" ) { Buf t; int c = g.gdxSymbolGetComment( a[0].in(), a[1].in(), t ); return rc( c ).set( "t", t.s() ); }
   if( op == "SymInfo" ) { Buf t; int c = g.gdxSymbolInfo( a[0].in(), t, n, m ); return rc( c ).set( "id", t.s() ).set( "dim", n ).set( "typ", m ); }
   if( op == "SymInfoX" ) { Buf t; int c = g.gdxSymbolInfoX( a[0].in(), n, m, t ); return rc( c ).set( "cnt", n ).set( "ui", m ).set( "txt", t.s() ); }
   if( op == "SymDim" ) return rc( g.gdxSymbolDim( a[0].in() ) );
   if( op == "FindSym" ) { int c = g.gdxFindSymbol( a[0].s.c_str(), n ); return rc( c ).set( "n", n ); }
   if( op == "HasText" ) return rc( g.gdxSetHasText( a[0].in() ) );
   if( op == "SysInfo" ) { int c = g.gdxSystemInfo( n, m ); return rc( c ).set( "ns", n ).set( "nu", m ); }
   if( op == "CurDim" ) return rc( g.gdxCurrentDim() );
   if( op == "RegRawStart" ) return rc( g.gdxUELRegisterRawStart() );
   if( op == "RegMapStart" ) return rc( g.gdxUELRegisterMapStart() );
   if( op == "RegStrStart" ) return rc( g.gdxUELRegisterStrStart() );
   if( op == "RegRaw" ) return rc( g.gdxUELRegisterRaw( a[0].s.c_str() ) );
   if( op == "RegMap" ) return rc( g.gdxUELRegisterMap( a[0].in(), a[1].s.c_str() ) );
   if( op == "RegStr" ) { int c = g.gdxUELRegisterStr( a[0].s.c_str(), n ); return rc( c ).set( "n", n ); }
   if( op == "RegDone" ) return rc( g.gdxUELRegisterDone() );
   if( op == "UelInfo" ) { int c = g.gdxUMUelInfo( n, m ); return rc( c ).set( "nu", n ).set( "hi", m ); }
   if( op == "UelGet" ) { Buf t; int c = g.gdxUMUelGet( a[0].in(), t, m ); return rc( c ).set( "u", t.s() ).set( "m", m ); }
   if( op == "FindUel" ) { int c = g.gdxUMFindUEL( a[0].s.c_str(), n, m ); return rc( c ).set( "n", n ).set( "m", m ); }
   if( op == "GetUel" ) { Buf t; int c = g.gdxGetUEL( a[0].in(), t ); return rc( c ).set( "u", t.s() ); }
   if( op == "RenameUel" ) return rc( g.gdxRenameUEL( a[0].s.c_str(), a[1].s.c_str() ) );
   auto startRead = [&]( int c ) { rc( c ).set( "n", n ); return r; };
   if( op == "ReadRawStart" ) return startRead( g.gdxDataReadRawStart( a[0].in(), n ) );
   if( op == "ReadStrStart" ) return startRead( g.gdxDataReadStrStart( a[0].in(), n ) );
   if( op == "ReadMapStart" ) return startRead( g.gdxDataReadMapStart( a[0].in(), n ) );
   if( op == "ReadFiltStart" ) { int d[20]; inInts( a[1], d ); return startRead( g.gdxDataReadFilteredStart( a[0].in(), d, n ) ); }
   if( op == "ReadRaw" || op == "ReadMap" )
   {
      Ints k; Vals v; int fd = ISENT; int c;
      if( op == "ReadRaw" ) c = g.gdxDataReadRaw( k.v, v.v, fd );
      else c = g.gdxDataReadMap( 0, k.v, v.v, fd );
      rc( c );
      if( c ) r.set( "k", k.j() ).set( "v", v.j() ).set( "fd", fd );
      return r;
   }
   if( op == "ReadStr" )
   {
      Strs k; Vals v; int fd = ISENT; int c = g.gdxDataReadStr( k.p, v.v, fd );
      rc( c );
      if( c ) r.set( "k", k.j() ).set( "v", v.j() ).set( "fd", fd );
      return r;
   }
   if( op == "ReadDone" ) return rc( g.gdxDataReadDone() );
   if( op == "Fast" ) { cbSetup( g, a[0].in() ); cbLim = -1; cbFd = false; int c = g.gdxDataReadRawFast( a[0].in(), cbPlain, n ); return rc( c ).set( "n", n ).set( "recs", recs ); }
   if( op == "FastEx" )
   {
      cbSetup( g, a[0].in() ); cbLim = a[1].in(); cbFd = true; int u = 0;
      int c = g.gdxDataReadRawFastEx( a[0].in(), cbEx, n, &u );
      if( u != (int) recs.a.size() ) c = -777;
      return rc( c ).set( "n", n ).set( "recs", recs );
   }
   if( op == "FastFilt" )
   {
      cbSetup( g, a[0].in() ); cbLim = a[2].in(); cbFd = false; InStrs k { a[1] };
      int c = g.gdxDataReadRawFastFilt( a[0].in(), k.p, cbFilt );
      return rc( c ).set( "recs", recs );
   }
   if( op == "SliceStart" )
   {
      Ints k; int c = g.gdxDataReadSliceStart( a[0].in(), k.v ); if( c ) sliceSy[x] = a[0].in(); return rc( c ).set( "cnt", k.j() );
   }
   if( op == "Slice" )
   {
      InStrs k { a[0] }; int free = 0, dim = g.gdxCurrentDim();
      for( int d = 0; d < dim; d++ ) if( k.s[d].empty() ) free++;
      cbSetup( g, sliceSy[x], free ); cbLim = -1; cbFd = false;
      int c = g.gdxDataReadSlice( k.p, n, cbPlain );
      return rc( c ).set( "dim", n ).set( "recs", recs );
   }
   if( op == "SliceUels" ) { int k[20]; inInts( a[0], k ); Strs s; int c = g.gdxDataSliceUELS( k, s.p ); return rc( c ).set( "l", s.j() ); }
   if( op == "DomElems" )
   {
      recs = J::arr(); int u = 0;
      int c = g.gdxGetDomainElements( a[0].in(), a[1].in(), a[2].in(), a[3].i ? cbDom : nullptr, n, &u );
      if( a[3].i && u != (int) recs.a.size() ) c = -777;
      return rc( c ).set( "n", n ).set( "l", recs );
   }
   if( op == "MaxLens" ) { Ints k; int c = g.gdxSymbIndxMaxLength( a[0].in(), k.v ); return rc( c ).set( "l", k.j() ); }
   if( op == "FiltExists" ) return rc( g.gdxFilterExists( a[0].in() ) );
   if( op == "FiltStart" ) return rc( g.gdxFilterRegisterStart( a[0].in() ) );
   if( op == "FiltReg" ) return rc( g.gdxFilterRegister( a[0].in() ) );
   if( op == "FiltDone" ) return rc( g.gdxFilterRegisterDone() );
   if( op == "AddSetText" ) { int c = g.gdxAddSetText( a[0].s.c_str(), n ); return rc( c ).set( "n", n ); }
   if( op == "GetElemText" ) { Buf t; int c = g.gdxGetElemText( a[0].in(), t, n ); return rc( c ).set( "t", t.s() ).set( "node", n ); }
   if( op == "SetTextNode" ) return rc( g.gdxSetTextNodeNr( a[0].in(), a[1].in() ) );
   if( op == "AcrAdd" ) return rc( g.gdxAcronymAdd( a[0].s.c_str(), a[1].s.c_str(), a[2].in() ) );
   if( op == "AcrCount" ) return rc( g.gdxAcronymCount() );
   if( op == "AcrGetInfo" ) { Buf s, t; int c = g.gdxAcronymGetInfo( a[0].in(), s, t, n ); return rc( c ).set( "nm", s.s() ).set( "t", t.s() ).set( "ix", n ); }
   if( op == "AcrSetInfo" ) return rc( g.gdxAcronymSetInfo( a[0].in(), a[1].s.c_str(), a[2].s.c_str(), a[3].in() ) );
   if( op == "AcrGetMap" ) { int c = g.gdxAcronymGetMapping( a[0].in(), n, m, q ); return rc( c ).set( "org", n ).set( "new", m ).set( "auto", q ); }
   if( op == "AcrNextNr" ) return rc( g.gdxAcronymNextNr( a[0].in() ) );
   if( op == "AcrIndex" ) return rc( g.gdxAcronymIndex( dOf( a[0].s ) ) );
   if( op == "AcrName" ) { Buf t; int c = g.gdxAcronymName( dOf( a[0].s ), t ); return rc( c ).set( "nm", t.s() ); }
   if( op == "AcrValue" ) { r.set( "v", tOf( g.gdxAcronymValue( a[0].in() ) ) ); return r; }
   if( op == "GetSV" || op == "SetSV" || op == "SetReadSV" )
   {
      // order in the scripts: und, na, pinf, minf, eps = indices sv_valund.. of the API
      double v[8] {};
      if( op == "GetSV" ) { int c = g.gdxGetSpecialValues( v ); J l = J::arr(); for( int z = 0; z < 5; z++ ) l.push( tOf( v[z] ) ); return rc( c ).set( "l", l ); }
      inVals( a[0], v ); v[5] = 1.0e301; v[6] = 0;
      return rc( op == "SetSV" ? g.gdxSetSpecialValues( v ) : g.gdxSetReadSpecialValues( v ) );
   }
   if( op == "ResetSV" ) return rc( g.gdxResetSpecialValues() );
   if( op == "MapValue" ) { int c = g.gdxMapValue( dOf( a[0].s ), n ); return rc( c ).set( "sv", n ); }
   if( op == "LastError" ) { int c = g.gdxGetLastError(); return rc( c ).set( "rcnz", c ? 1 : 0 ); }
   if( op == "ErrCount" ) return rc( g.gdxErrorCount() );
   if( op == "ErrStr" ) { Buf t; int c = g.gdxErrorStr( a[0].in(), t ); return rc( c ).set( "t", t.s() ); }
   if( op == "DataErrCount" ) return rc( g.gdxDataErrorCount() );
   if( op == "DataErrRec" || op == "DataErrRecX" )
   {
      Ints k; Vals v; int c = op == "DataErrRec" ? g.gdxDataErrorRecord( a[0].in(), k.v, v.v ) : g.gdxDataErrorRecordX( a[0].in(), k.v, v.v );
      rc( c );
      if( c ) r.set( "k", k.j() ).set( "v", v.j() );
      return r;
   }
   if( op == "FileInfo" ) { int c = g.gdxFileInfo( n, m ); return rc( c ).set( "ver", n ).set( "compr", m ); }
   if( op == "FileVersion" ) { Buf s, t; int c = g.gdxFileVersion( s, t ); return rc( c ).set( "prod", t.s() ).set( "lib", [&] { Buf v; g.gdxGetDLLVersion( v ); return v.s() == s.s() ? std::string( "own" ) : s.s(); }() ); }
   if( op == "MemUsed" ) return rc( g.gdxGetMemoryUsed() >= 0 ? 1 : 0 );
   if( op == "DllVersion" ) { Buf v; int c = g.gdxGetDLLVersion( v ); return rc( c ).set( "lib", v.s().empty() ? "" : "own" ); }
   if( op == "AutoConvert" ) return rc( g.gdxAutoConvert( a[0].in() ) );
   if( op == "SetStoreDomSets" ) { g.gdxStoreDomainSetsSet( a[0].in() ); return rc( 1 ); }
   if( op == "GetStoreDomSets" ) return rc( g.gdxStoreDomainSets() ? 1 : 0 );
   if( op == "SetAllowBogus" ) { g.gdxAllowBogusDomainsSet( a[0].in() ); return rc( 1 ); }
   if( op == "GetAllowBogus" ) return rc( g.gdxAllowBogusDomains() ? 1 : 0 );
   if( op == "SetAcrNaN" ) { g.gdxMapAcronymsToNaNSet( a[0].in() ); return rc( 1 ); }
   if( op == "GetAcrNaN" ) return rc( g.gdxMapAcronymsToNaN() ? 1 : 0 );
   if( op == "UelMaxLen" ) return rc( const_cast<const Obj &>( g ).gdxUELMaxLength() );
   if( op == "SymMaxLen" ) return rc( g.gdxSymbMaxLength() );
   if( op == "Trace" ) return rc( g.gdxSetTraceLevel( a[0].in(), a[1].s.c_str() ) );
   throw runtime_error( "unknown op " + op );
}

static J call( int x, const string &op, const J &a )
{
   if( op == "Rep" )
   {
      J l = J::arr();
      for( auto &p: a[1].a ) l.push( one( x, a[0].s, p ) );
      return J::obj().set( "l", l );
   }
   if( op == "Loop" )
   {
      J l = J::arr(), z = J::arr(); z.push( 0 );
      for( int n = 0; n < a[1].in(); n++ )
      {
         J r = one( x, a[0].s, z );
         bool end = r.at( "rc" ).i == 0;
         l.push( r );
         if( end ) break;
      }
      return J::obj().set( "l", l );
   }
   return one( x, op, a );
}

static void child( const J &sc, int fd )
{
   FILE *f = fdopen( fd, "w" );
   for( auto &ev: sc.at( "ev" ).a )
   {
      J out = ev;
      int x = ev.at( "x" ).in();
      recArgs = J {};
#ifdef IOWRAP
      iow::base = dir; iow::hard = iow::soft = 0;
#endif
      if( limitN >= 0 && x ) setLimit( limitN );
      J res = call( x, ev.at( "o" ).s, ev.at( "a" ) );
      if( limitN >= 0 && x ) setLimit( -1 );
#ifdef IOWRAP
      if( iow::hard || iow::soft ) out.set( "io", J::obj().set( "hard", iow::hard ).set( "soft", iow::soft ) );
#endif
      if( recArgs.k == J::Arr )
         for( auto &f: out.o ) if( f.first == "a" ) f.second = recArgs;
      out.set( "r", res );
      auto it = objs.find( x );
      if( it != objs.end() ) out.set( "ec", it->second->gdxErrorCount() );
      string s; out.dump( s ); s += '\n';
      fputs( s.c_str(), f ); fflush( f );
   }
   objs.clear();
   fputs( "END\n", f ); fflush( f );
}

static void wipe( const string &d ) // only ever called with a directory below the given scratch directory
{
   string c = "rm -rf -- '" + d + "'";
   if( system( c.c_str() ) ) {}
}

// what a script has left behind in tf, as one line
static string collect( const J &sc, const string &tf, int st )
{
   ifstream evs( tf, ios::binary ); string l, acc; bool end = false; string exc;
   while( getline( evs, l ) )
   {
      if( l == "END" ) { end = true; break; }
      if( l.compare( 0, 4, "EXC " ) == 0 ) { exc = l.substr( 4 ); break; }
      if( l.empty() || l.back() != '}' ) break;
      if( !acc.empty() ) acc += ',';
      acc += l;
   }
   evs.close(); unlink( tf.c_str() );
   if( !end )
   {
      char b[64]; snprintf( b, 64, "status %d signal %d", WIFEXITED( st ) ? WEXITSTATUS( st ) : -1, WIFSIGNALED( st ) ? WTERMSIG( st ) : 0 );
      J e = J::obj(); e.set( "x", 0 ).set( "o", "CRASH" ); J a = J::arr(); a.push( string( b ) + " " + exc ); e.set( "a", a ); e.set( "r", J::obj().set( "rc", 0 ) );
      string s; e.dump( s ); if( !acc.empty() ) acc += ','; acc += s;
   }
   string id; sc.at( "id" ).dump( id );
   return "{\"id\":" + id + ",\"ev\":[" + acc + "]}\n";
}

#ifdef THREADS
int main( int argc, char **argv )
{
   if( argc < 4 ) return 2;
   int tmo = argc > 4 ? atoi( argv[4] ) : 60;
   ifstream in( argv[1], ios::binary );
   ofstream out( argv[2], ios::binary );
   string scratch = argv[3], line;
   unsetenv( "GDXCONVERT" ); setenv( "GDXCOMPRESS", "0", 1 );
   vector<J> all;
   while( getline( in, line ) )
   {
      if( line.empty() ) continue;
      JParser ps { line.data(), line.data() + line.size() };
      all.push_back( ps.parse() );
   }
   const int width = 4;
   for( size_t g = 0; g < all.size(); g += width )
   {
      size_t n = min<size_t>( width, all.size() - g );
      auto ev = [&]( size_t q ) { return scratch + "/ev" + to_string( g + q ); };
      auto dr = [&]( size_t q ) { return scratch + "/t" + to_string( g + q ); };
      for( size_t q = 0; q < n; q++ ) mkdir( dr( q ).c_str(), 0700 );
      fflush( nullptr );
      pid_t pid = fork();
      if( pid == 0 )
      {
         alarm( tmo );
         int nul = open( "/dev/null", O_WRONLY ); dup2( nul, 1 );
         vector<thread> ts; atomic<size_t> ready { 0 };
         for( size_t q = 0; q < n; q++ )
            ts.emplace_back( [&, q] {
               string tf = ev( q );
               dir = dr( q );
               int fd = open( tf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600 );
               for( ready++; ready < n; ) this_thread::yield();
               try { child( all[g + q], fd ); }
               catch( const std::exception &e ) { FILE *f = fopen( tf.c_str(), "a" ); fprintf( f, "EXC %s\n", e.what() ); fclose( f ); }
               catch( ... ) { FILE *f = fopen( tf.c_str(), "a" ); fprintf( f, "EXC unknown\n" ); fclose( f ); }
            } );
         for( auto &t: ts ) t.join();
         _exit( 0 );
      }
      int st = 0; waitpid( pid, &st, 0 );
      for( size_t q = 0; q < n; q++ ) { out << collect( all[g + q], ev( q ), st ); wipe( dr( q ) ); }
   }
   return 0;
}
#else
int main( int argc, char **argv )
{
   if( argc < 4 ) return 2;
   int tmo = argc > 4 ? atoi( argv[4] ) : 60;
   ifstream in( argv[1], ios::binary );
   ofstream out( argv[2], ios::binary );
   string scratch = argv[3], line;
   unsetenv( "GDXCOMPRESS" ); unsetenv( "GDXCONVERT" );
   int nr = 0;
   while( getline( in, line ) )
   {
      if( line.empty() ) continue;
      JParser ps { line.data(), line.data() + line.size() };
      J sc = ps.parse();
      dir = scratch + "/t" + to_string( ++nr );
      mkdir( dir.c_str(), 0700 );
      string tf = scratch + "/ev" + to_string( nr );
      int fd = open( tf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600 );
      fflush( nullptr );
      pid_t pid = fork();
      if( pid == 0 )
      {
         alarm( tmo );
         int nul = open( "/dev/null", O_WRONLY ); dup2( nul, 1 );
         try { child( sc, fd ); }
         catch( const std::exception &e ) { FILE *f = fopen( tf.c_str(), "a" ); fprintf( f, "EXC %s\n", e.what() ); fclose( f ); _exit( 3 ); }
         catch( ... ) { FILE *f = fopen( tf.c_str(), "a" ); fprintf( f, "EXC unknown\n" ); fclose( f ); _exit( 3 ); }
         _exit( 0 );
      }
      close( fd );
      int st = 0; waitpid( pid, &st, 0 );
      out << collect( sc, tf, st );
      wipe( dir );
   }
   return 0;
}
#endif
