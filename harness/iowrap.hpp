// System calls of the library under observation: linked with --wrap, every open, write, seek and close of a file in
// the script's directory passes through here, is recorded, and can be made to fail.
#pragma once
#include <sys/stat.h>
#include <cerrno>
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>
namespace iow
{
struct Ent { long long off; std::string b; };
inline std::string base;                                // only files below this directory count
inline std::map<int, std::string> fds;                  // descriptor -> name below base
inline std::map<std::string, std::vector<Ent>> log;     // what was written since the file was created
inline std::map<std::string, std::string> initial;      // what it contained before (files that are not created anew)
inline std::string fault; inline int nth = 0, count = 0;// the nth write from now on fails, and count-1 after it (count < 0: all)
inline int hard = 0, soft = 0, fired = 0;               // failures seen since last asked
inline bool due() { if( nth > 1 ) { nth--; return false; } if( nth == 1 && count != 0 ) { if( count > 0 ) count--; fired++; return true; } return false; }
}
extern "C" {
int __real_open( const char *, int, ... ); int __real_open64( const char *, int, ... );
ssize_t __real_write( int, const void *, size_t ); ssize_t __real_pwrite( int, const void *, size_t, off_t ); ssize_t __real_pwrite64( int, const void *, size_t, off_t );
ssize_t __real_writev( int, const struct iovec *, int );
off_t __real_lseek( int, off_t, int ); off_t __real_lseek64( int, off_t, int ); int __real_close( int ); int __real_ftruncate( int, off_t );

static void iowOpened( int fd, const char *p, int flags )
{
   std::string s { p };
   if( fd < 0 || iow::base.empty() || s.compare( 0, iow::base.size() + 1, iow::base + "/" ) ) return;
   s = s.substr( iow::base.size() + 1 );
   iow::fds[fd] = s;
   if( ( flags & O_ACCMODE ) == O_RDONLY ) return;
   iow::log[s].clear(); iow::initial[s].clear();
   struct stat sb; if( !( flags & O_TRUNC ) && !fstat( fd, &sb ) && sb.st_size < 100000000 )
   {
      char b[4096]; ssize_t n; long long o = 0;
      while( ( n = pread( fd, b, sizeof b, o ) ) > 0 ) { iow::initial[s].append( b, n ); o += n; }
   }
}
int __wrap_open( const char *p, int f, int m ) { int fd = __real_open( p, f, m ); int e = errno; iowOpened( fd, p, f ); errno = e; return fd; }
int __wrap_open64( const char *p, int f, int m ) { int fd = __real_open64( p, f, m ); int e = errno; iowOpened( fd, p, f ); errno = e; return fd; }
static ssize_t iowWrite( int fd, const void *b, size_t n, long long off, bool positioned )
{
   auto it = iow::fds.find( fd );
   auto real = [&]( size_t k ) { return positioned ? __real_pwrite( fd, b, k, off ) : __real_write( fd, b, k ); };
   if( it == iow::fds.end() ) return real( n );
   if( !positioned ) off = __real_lseek( fd, 0, SEEK_CUR );
   ssize_t rc; size_t want = n;
   if( iow::fault.size() && iow::fault != "seek" && iow::fault != "close" && iow::due() )
   {
      if( iow::fault == "enospc" ) { iow::hard++; errno = ENOSPC; return -1; }
      if( iow::fault == "eio" ) { iow::hard++; errno = EIO; return -1; }
      if( iow::fault == "zero" ) { iow::soft++; errno = 0; return 0; }
      if( iow::fault == "eintr" ) { iow::soft++; errno = EINTR; return -1; }
      if( iow::fault == "short" ) { iow::soft++; want = n > 1 ? n / 2 : n; }
      if( iow::fault == "one" ) { iow::soft++; want = 1; }
   }
   rc = real( want );
   int e = errno;
   if( rc < 0 ) { if( e == EINTR ) iow::soft++; else iow::hard++; }
   else
   {
      if( (size_t) rc < n ) iow::soft++;
      iow::log[it->second].push_back( { off, std::string( (const char *) b, rc ) } );
   }
   errno = e; return rc;
}
ssize_t __wrap_write( int fd, const void *b, size_t n ) { return iowWrite( fd, b, n, 0, false ); }
ssize_t __wrap_pwrite( int fd, const void *b, size_t n, off_t o ) { return iowWrite( fd, b, n, o, true ); }
ssize_t __wrap_pwrite64( int fd, const void *b, size_t n, off_t o ) { return iowWrite( fd, b, n, o, true ); }
ssize_t __wrap_writev( int fd, const struct iovec *v, int c )
{
   std::string s; for( int i = 0; i < c; i++ ) s.append( (const char *) v[i].iov_base, v[i].iov_len );
   return iowWrite( fd, s.data(), s.size(), 0, false );
}
off_t __wrap_lseek( int fd, off_t o, int w )
{
   if( iow::fds.count( fd ) && iow::fault == "seek" && iow::due() ) { iow::hard++; errno = EIO; return -1; }
   return __real_lseek( fd, o, w );
}
off_t __wrap_lseek64( int fd, off_t o, int w ) { return __wrap_lseek( fd, o, w ); }
int __wrap_close( int fd )
{
   bool mine = iow::fds.erase( fd ) > 0;
   int rc = __real_close( fd );
   if( mine && iow::fault == "close" && iow::due() ) { iow::hard++; errno = EIO; return -1; }
   return rc;
}
int __wrap_ftruncate( int fd, off_t n ) { return __real_ftruncate( fd, n ); }
}
