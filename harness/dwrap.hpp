// The exported functions of libgdxcclib64.so as other language bindings call them: strings as length-prefixed
// strings (D__), string arrays as one block (D__, N__) and callbacks with their user pointer as an integer (F__).
// Written once from the signatures in gdxcppwrap.hpp; every call goes straight to the shared library.
#pragma once
#include "gclgms.h"
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <stdexcept>
#include <string>
#include <unistd.h>
namespace gdx
{
using TDataStoreProc_t = void ( * )( const int *, const double * );
using TDataStoreExProc_t = int ( * )( const int *, const double *, int, void * );
using TDataStoreFiltProc_t = int ( * )( const int *, const double *, void * );
using TDomainIndexProc_t = void ( * )( int, int, void * );
struct DLib {
   void *h;
   DLib()
   {
      char b[4096]; ssize_t n = readlink( "/proc/self/exe", b, 4000 ); std::string p( b, n > 0 ? n : 0 );
      h = dlopen( ( p.substr( 0, p.rfind( '/' ) ) + "/libgdxcclib64.so" ).c_str(), RTLD_NOW );
      if( !h ) { fprintf( stderr, "%s\n", dlerror() ); exit( 97 ); }
   }
   template<class T> T f( const char *n ) { void *q = dlsym( h, n ); if( !q ) { fprintf( stderr, "no %s\n", n ); exit( 97 ); } return reinterpret_cast<T>( q ); }
};
static DLib dlib;
// a string with its length in front
struct SS { char *b; bool fits; SS() : b { new char[256] }, fits { true } { b[0] = 7; memset( b + 1, 1, 255 ); }
   explicit SS( const char *s ) : SS() { size_t n = strlen( s ); fits = n <= 255; if( n > 255 ) n = 255; b[0] = (char) (unsigned char) n; memcpy( b + 1, s, n ); }
   ~SS() { delete[] b; } SS( const SS & ) = delete;
   void to( char *s ) const { unsigned n = (unsigned char) b[0]; memcpy( s, b + 1, n ); s[n] = 0; } };
struct SA { char *b; bool fits; SA() : b { new char[20 * 256] }, fits { true } { for( int q = 0; q < 20; q++ ) { b[q * 256] = 2; b[q * 256 + 1] = 1; b[q * 256 + 2] = 3; } }
   explicit SA( const char **s ) : SA() { for( int q = 0; q < 20; q++ ) { size_t n = strlen( s[q] ); if( n > 255 ) { fits = false; n = 255; } b[q * 256] = (char) (unsigned char) n; memcpy( b + q * 256 + 1, s[q], n ); } }
   ~SA() { delete[] b; } SA( const SA & ) = delete;
   void to( char **s ) const { for( int q = 0; q < 20; q++ ) { const char *p = b + q * 256; unsigned n = (unsigned char) p[0]; if( n == 2 && p[1] == 1 && p[2] == 3 ) continue; memcpy( s[q], p + 1, n ); s[q][n] = 0; } } };
// the plain block of the N__ functions
struct NA { char ( *b )[256]; NA() : b { new char[20][256] } { for( int q = 0; q < 20; q++ ) strcpy( b[q], "\x01\x03" ); } ~NA() { delete[] b; } NA( const NA & ) = delete;
   void to( char **s ) const { for( int q = 0; q < 20; q++ ) if( strcmp( b[q], "\x01\x03" ) ) strcpy( s[q], b[q] ); } };
// callbacks of the F__ functions get their user pointer as an integer
inline TDataStoreExProc_t curEx; inline TDataStoreFiltProc_t curFilt; inline TDomainIndexProc_t curDom;
inline int fEx( const int *k, const double *v, int fd, int64_t u ) { return curEx( k, v, fd, reinterpret_cast<void *>( u ) ); }
inline int fFilt( const int *k, const double *v, int64_t u ) { return curFilt( k, v, reinterpret_cast<void *>( u ) ); }
inline void fDom( int r, int m, int64_t u ) { curDom( r, m, reinterpret_cast<void *>( u ) ); }
static unsigned turn;// successive calls take different doors
class TGXFileObj
{
   void *pgx {};
public:
   enum class TraceLevels : uint8_t { trl_none, trl_errors, trl_some, trl_all };
   explicit TGXFileObj( std::string &ErrMsg )
   {
      char buf[GMS_SSSIZE] = "";
      if( turn++ % 2 ) { if( !dlib.f<int ( * )( void **, char *, int )>( "gdxcreate" )( &pgx, buf, GMS_SSSIZE ) ) throw std::runtime_error( buf ); }
      else { pgx = nullptr; dlib.f<void ( * )( void ** )>( "xcreate" )( &pgx ); if( !pgx ) throw std::runtime_error( "xcreate" ); }
      ErrMsg.assign( buf );
   }
   ~TGXFileObj() { if( pgx ) dlib.f<void ( * )( void ** )>( "xfree" )( &pgx ); if( pgx ) abort(); }

   int gdxStoreDomainSets(  ) const { return dlib.f<int ( * )( void * )>( "c__gdxstoredomainsets" )( pgx ); }
   void gdxStoreDomainSetsSet( int flag ) { dlib.f<void ( * )( void *, int )>( "c__gdxstoredomainsetsset" )( pgx, flag ); }
   int gdxAllowBogusDomains(  ) const { return dlib.f<int ( * )( void * )>( "c__gdxallowbogusdomains" )( pgx ); }
   void gdxAllowBogusDomainsSet( int flag ) { dlib.f<void ( * )( void *, int )>( "c__gdxallowbogusdomainsset" )( pgx, flag ); }
   int gdxMapAcronymsToNaN(  ) const { return dlib.f<int ( * )( void * )>( "c__gdxmapacronymstonan" )( pgx ); }
   void gdxMapAcronymsToNaNSet( int flag ) { dlib.f<void ( * )( void *, int )>( "c__gdxmapacronymstonanset" )( pgx, flag ); }
   int gdxAcronymAdd( const char *AName, const char *Txt, int AIndx ) { SS AName_( AName ); SS Txt_( Txt ); if( AName_.fits && Txt_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, const char *, int )>( "d__gdxacronymadd" )( pgx, AName_.b, Txt_.b, AIndx );  return rc; }
      return dlib.f<int ( * )( void *, const char *, const char *, int )>( "c__gdxacronymadd" )( pgx, AName, Txt, AIndx ); }
   int gdxAcronymCount(  ) const { return dlib.f<int ( * )( void * )>( "c__gdxacronymcount" )( pgx ); }
   int gdxAcronymGetInfo( int N, char *AName, char *Txt, int &AIndx ) const { SS AName_; SS Txt_; int rc = dlib.f<int ( * )( void *, int, char *, char *, int * )>( "d__gdxacronymgetinfo" )( pgx, N, AName_.b, Txt_.b, &AIndx ); AName_.to( AName ); Txt_.to( Txt ); return rc; }
   int gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &autoIndex ) { return dlib.f<int ( * )( void *, int, int *, int *, int * )>( "c__gdxacronymgetmapping" )( pgx, N, &orgIndx, &newIndx, &autoIndex ); }
   int gdxAcronymIndex( double V ) const { return dlib.f<int ( * )( void *, double )>( "c__gdxacronymindex" )( pgx, V ); }
   int gdxAcronymName( double V, char *AName ) { SS AName_; int rc = dlib.f<int ( * )( void *, double, char * )>( "d__gdxacronymname" )( pgx, V, AName_.b ); AName_.to( AName ); return rc; }
   int gdxAcronymNextNr( int NV ) { return dlib.f<int ( * )( void *, int )>( "c__gdxacronymnextnr" )( pgx, NV ); }
   int gdxAcronymSetInfo( int N, const char *AName, const char *Txt, int AIndx ) { SS AName_( AName ); SS Txt_( Txt ); if( AName_.fits && Txt_.fits ) { int rc = dlib.f<int ( * )( void *, int, const char *, const char *, int )>( "d__gdxacronymsetinfo" )( pgx, N, AName_.b, Txt_.b, AIndx );  return rc; }
      return dlib.f<int ( * )( void *, int, const char *, const char *, int )>( "c__gdxacronymsetinfo" )( pgx, N, AName, Txt, AIndx ); }
   double gdxAcronymValue( int AIndx ) const { return dlib.f<double ( * )( void *, int )>( "c__gdxacronymvalue" )( pgx, AIndx ); }
   int gdxAddAlias( const char *Id1, const char *Id2 ) { SS Id1_( Id1 ); SS Id2_( Id2 ); if( Id1_.fits && Id2_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, const char * )>( "d__gdxaddalias" )( pgx, Id1_.b, Id2_.b );  return rc; }
      return dlib.f<int ( * )( void *, const char *, const char * )>( "c__gdxaddalias" )( pgx, Id1, Id2 ); }
   int gdxAddSetText( const char *Txt, int &TxtNr ) { SS Txt_( Txt ); if( Txt_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, int * )>( "d__gdxaddsettext" )( pgx, Txt_.b, &TxtNr );  return rc; }
      return dlib.f<int ( * )( void *, const char *, int * )>( "c__gdxaddsettext" )( pgx, Txt, &TxtNr ); }
   int gdxAutoConvert( int NV ) { return dlib.f<int ( * )( void *, int )>( "c__gdxautoconvert" )( pgx, NV ); }
   int gdxClose(  ) { return dlib.f<int ( * )( void * )>( "c__gdxclose" )( pgx ); }
   int gdxDataErrorCount(  ) const { return dlib.f<int ( * )( void * )>( "c__gdxdataerrorcount" )( pgx ); }
   int gdxDataErrorRecord( int RecNr, int *KeyInt, double *Values ) { return dlib.f<int ( * )( void *, int, int *, double * )>( "c__gdxdataerrorrecord" )( pgx, RecNr, KeyInt, Values ); }
   int gdxDataErrorRecordX( int RecNr, int *KeyInt, double *Values ) { return dlib.f<int ( * )( void *, int, int *, double * )>( "c__gdxdataerrorrecordx" )( pgx, RecNr, KeyInt, Values ); }
   int gdxDataReadDone(  ) { return dlib.f<int ( * )( void * )>( "c__gdxdatareaddone" )( pgx ); }
   int gdxDataReadFilteredStart( int SyNr, const int *FilterAction, int &NrRecs ) { return dlib.f<int ( * )( void *, int, const int *, int * )>( "c__gdxdatareadfilteredstart" )( pgx, SyNr, FilterAction, &NrRecs ); }
   int gdxDataReadMap( int RecNr, int *KeyInt, double *Values, int &DimFrst ) { return dlib.f<int ( * )( void *, int, int *, double *, int * )>( "c__gdxdatareadmap" )( pgx, RecNr, KeyInt, Values, &DimFrst ); }
   int gdxDataReadMapStart( int SyNr, int &NrRecs ) { return dlib.f<int ( * )( void *, int, int * )>( "c__gdxdatareadmapstart" )( pgx, SyNr, &NrRecs ); }
   int gdxDataReadRaw( int *KeyInt, double *Values, int &DimFrst ) { return dlib.f<int ( * )( void *, int *, double *, int * )>( "c__gdxdatareadraw" )( pgx, KeyInt, Values, &DimFrst ); }
   int gdxDataReadRawFast( int SyNr, TDataStoreProc_t DP, int &NrRecs ) { if( turn++ % 2 ) {  return dlib.f<int ( * )( void *, int, TDataStoreProc_t, int * )>( "f__gdxdatareadrawfast" )( pgx, SyNr, DP, &NrRecs ); }
      return dlib.f<int ( * )( void *, int, TDataStoreProc_t, int * )>( "c__gdxdatareadrawfast" )( pgx, SyNr, DP, &NrRecs ); }
   int gdxDataReadRawFastEx( int SyNr, TDataStoreExProc_t DP, int &NrRecs, void *Uptr ) { if( turn++ % 2 ) { curEx = DP; return dlib.f<int ( * )( void *, int, decltype( &fEx ), int *, void * )>( "f__gdxdatareadrawfastex" )( pgx, SyNr, fEx, &NrRecs, Uptr ); }
      return dlib.f<int ( * )( void *, int, TDataStoreExProc_t, int *, void * )>( "c__gdxdatareadrawfastex" )( pgx, SyNr, DP, &NrRecs, Uptr ); }
   int gdxDataReadRawFastFilt( int SyNr, const char **UelFilterStr, TDataStoreFiltProc_t DP ) { if( turn++ % 2 ) { curFilt = DP; return dlib.f<int ( * )( void *, int, const char **, decltype( &fFilt ) )>( "f__gdxdatareadrawfastfilt" )( pgx, SyNr, UelFilterStr, fFilt ); }
      SA UelFilterStr_( UelFilterStr ); if( UelFilterStr_.fits ) { int rc = dlib.f<int ( * )( void *, int, const char *, TDataStoreFiltProc_t )>( "d__gdxdatareadrawfastfilt" )( pgx, SyNr, UelFilterStr_.b, DP );  return rc; }
      return dlib.f<int ( * )( void *, int, const char **, TDataStoreFiltProc_t )>( "c__gdxdatareadrawfastfilt" )( pgx, SyNr, UelFilterStr, DP ); }
   int gdxDataReadRawStart( int SyNr, int &NrRecs ) { return dlib.f<int ( * )( void *, int, int * )>( "c__gdxdatareadrawstart" )( pgx, SyNr, &NrRecs ); }
   int gdxDataReadSlice( const char **UelFilterStr, int &Dimen, TDataStoreProc_t DP ) { if( turn++ % 2 ) {  return dlib.f<int ( * )( void *, const char **, int *, TDataStoreProc_t )>( "f__gdxdatareadslice" )( pgx, UelFilterStr, &Dimen, DP ); }
      SA UelFilterStr_( UelFilterStr ); if( UelFilterStr_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, int *, TDataStoreProc_t )>( "d__gdxdatareadslice" )( pgx, UelFilterStr_.b, &Dimen, DP );  return rc; }
      return dlib.f<int ( * )( void *, const char **, int *, TDataStoreProc_t )>( "c__gdxdatareadslice" )( pgx, UelFilterStr, &Dimen, DP ); }
   int gdxDataReadSliceStart( int SyNr, int *ElemCounts ) { return dlib.f<int ( * )( void *, int, int * )>( "c__gdxdatareadslicestart" )( pgx, SyNr, ElemCounts ); }
   int gdxDataReadStr( char **KeyStr, double *Values, int &DimFrst ) { if( turn++ % 3 == 0 ) { NA KeyStr_; int rc = dlib.f<int ( * )( void *, char ( * )[256], double *, int * )>( "n__gdxdatareadstr" )( pgx, KeyStr_.b, Values, &DimFrst ); if( rc ) KeyStr_.to( KeyStr ); return rc; }
      SA KeyStr_; int rc = dlib.f<int ( * )( void *, char *, double *, int * )>( "d__gdxdatareadstr" )( pgx, KeyStr_.b, Values, &DimFrst ); if( rc ) KeyStr_.to( KeyStr ); return rc; }
   int gdxDataReadStrStart( int SyNr, int &NrRecs ) { return dlib.f<int ( * )( void *, int, int * )>( "c__gdxdatareadstrstart" )( pgx, SyNr, &NrRecs ); }
   int gdxDataSliceUELS( const int *SliceKeyInt, char **KeyStr ) { if( turn++ % 3 == 0 ) { NA KeyStr_; int rc = dlib.f<int ( * )( void *, const int *, char ( * )[256] )>( "n__gdxdatasliceuels" )( pgx, SliceKeyInt, KeyStr_.b ); if( rc ) KeyStr_.to( KeyStr ); return rc; }
      SA KeyStr_; int rc = dlib.f<int ( * )( void *, const int *, char * )>( "d__gdxdatasliceuels" )( pgx, SliceKeyInt, KeyStr_.b ); if( rc ) KeyStr_.to( KeyStr ); return rc; }
   int gdxDataWriteDone(  ) { return dlib.f<int ( * )( void * )>( "c__gdxdatawritedone" )( pgx ); }
   int gdxDataWriteMap( const int *KeyInt, const double *Values ) { return dlib.f<int ( * )( void *, const int *, const double * )>( "c__gdxdatawritemap" )( pgx, KeyInt, Values ); }
   int gdxDataWriteMapStart( const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo ) { SS SyId_( SyId ); SS ExplTxt_( ExplTxt ); if( SyId_.fits && ExplTxt_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, const char *, int, int, int )>( "d__gdxdatawritemapstart" )( pgx, SyId_.b, ExplTxt_.b, Dimen, Typ, UserInfo );  return rc; }
      return dlib.f<int ( * )( void *, const char *, const char *, int, int, int )>( "c__gdxdatawritemapstart" )( pgx, SyId, ExplTxt, Dimen, Typ, UserInfo ); }
   int gdxDataWriteRaw( const int *KeyInt, const double *Values ) { return dlib.f<int ( * )( void *, const int *, const double * )>( "c__gdxdatawriteraw" )( pgx, KeyInt, Values ); }
   int gdxDataWriteRawStart( const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo ) { SS SyId_( SyId ); SS ExplTxt_( ExplTxt ); if( SyId_.fits && ExplTxt_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, const char *, int, int, int )>( "d__gdxdatawriterawstart" )( pgx, SyId_.b, ExplTxt_.b, Dimen, Typ, UserInfo );  return rc; }
      return dlib.f<int ( * )( void *, const char *, const char *, int, int, int )>( "c__gdxdatawriterawstart" )( pgx, SyId, ExplTxt, Dimen, Typ, UserInfo ); }
   int gdxDataWriteRawStartKeyBounds( const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo, const int *MinUELIndices, const int *MaxUELIndices ) { SS SyId_( SyId ); SS ExplTxt_( ExplTxt ); if( SyId_.fits && ExplTxt_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, const char *, int, int, int, const int *, const int * )>( "d__gdxdatawriterawstartkeybounds" )( pgx, SyId_.b, ExplTxt_.b, Dimen, Typ, UserInfo, MinUELIndices, MaxUELIndices );  return rc; }
      return dlib.f<int ( * )( void *, const char *, const char *, int, int, int, const int *, const int * )>( "c__gdxdatawriterawstartkeybounds" )( pgx, SyId, ExplTxt, Dimen, Typ, UserInfo, MinUELIndices, MaxUELIndices ); }
   int gdxDataWriteStr( const char **KeyStr, const double *Values ) { SA KeyStr_( KeyStr ); if( KeyStr_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, const double * )>( "d__gdxdatawritestr" )( pgx, KeyStr_.b, Values );  return rc; }
      return dlib.f<int ( * )( void *, const char **, const double * )>( "c__gdxdatawritestr" )( pgx, KeyStr, Values ); }
   int gdxDataWriteStrStart( const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo ) { SS SyId_( SyId ); SS ExplTxt_( ExplTxt ); if( SyId_.fits && ExplTxt_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, const char *, int, int, int )>( "d__gdxdatawritestrstart" )( pgx, SyId_.b, ExplTxt_.b, Dimen, Typ, UserInfo );  return rc; }
      return dlib.f<int ( * )( void *, const char *, const char *, int, int, int )>( "c__gdxdatawritestrstart" )( pgx, SyId, ExplTxt, Dimen, Typ, UserInfo ); }
   static int gdxGetDLLVersion( char *V ) { SS V_; int rc = dlib.f<int ( * )( void *, char * )>( "d__gdxgetdllversion" )( nullptr, V_.b ); V_.to( V ); return rc; }
   int gdxErrorCount(  ) const { return dlib.f<int ( * )( void * )>( "c__gdxerrorcount" )( pgx ); }
   int gdxErrorStr( int ErrNr, char *ErrMsg ) const { SS ErrMsg_; int rc = dlib.f<int ( * )( void *, int, char * )>( "d__gdxerrorstr" )( pgx, ErrNr, ErrMsg_.b ); ErrMsg_.to( ErrMsg ); return rc; }
   int gdxFileInfo( int &FileVer, int &ComprLev ) const { return dlib.f<int ( * )( void *, int *, int * )>( "c__gdxfileinfo" )( pgx, &FileVer, &ComprLev ); }
   int gdxFileVersion( char *FileStr, char *ProduceStr ) const { SS FileStr_; SS ProduceStr_; int rc = dlib.f<int ( * )( void *, char *, char * )>( "d__gdxfileversion" )( pgx, FileStr_.b, ProduceStr_.b ); FileStr_.to( FileStr ); ProduceStr_.to( ProduceStr ); return rc; }
   int gdxFilterExists( int FilterNr ) { return dlib.f<int ( * )( void *, int )>( "c__gdxfilterexists" )( pgx, FilterNr ); }
   int gdxFilterRegister( int UelMap ) { return dlib.f<int ( * )( void *, int )>( "c__gdxfilterregister" )( pgx, UelMap ); }
   int gdxFilterRegisterDone(  ) { return dlib.f<int ( * )( void * )>( "c__gdxfilterregisterdone" )( pgx ); }
   int gdxFilterRegisterStart( int FilterNr ) { return dlib.f<int ( * )( void *, int )>( "c__gdxfilterregisterstart" )( pgx, FilterNr ); }
   int gdxFindSymbol( const char *SyId, int &SyNr ) { SS SyId_( SyId ); if( SyId_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, int * )>( "d__gdxfindsymbol" )( pgx, SyId_.b, &SyNr );  return rc; }
      return dlib.f<int ( * )( void *, const char *, int * )>( "c__gdxfindsymbol" )( pgx, SyId, &SyNr ); }
   int gdxGetElemText( int TxtNr, char *Txt, int &Node ) { SS Txt_; int rc = dlib.f<int ( * )( void *, int, char *, int * )>( "d__gdxgetelemtext" )( pgx, TxtNr, Txt_.b, &Node ); Txt_.to( Txt ); return rc; }
   int gdxGetLastError(  ) { return dlib.f<int ( * )( void * )>( "c__gdxgetlasterror" )( pgx ); }
   int64_t gdxGetMemoryUsed(  ) { return dlib.f<int64_t ( * )( void * )>( "c__gdxgetmemoryused" )( pgx ); }
   int gdxGetSpecialValues( double *AVals ) { return dlib.f<int ( * )( void *, double * )>( "c__gdxgetspecialvalues" )( pgx, AVals ); }
   int gdxGetUEL( int UelNr, char *Uel ) const { SS Uel_; int rc = dlib.f<int ( * )( void *, int, char * )>( "d__gdxgetuel" )( pgx, UelNr, Uel_.b ); Uel_.to( Uel ); return rc; }
   int gdxMapValue( double D, int &sv ) { return dlib.f<int ( * )( void *, double, int * )>( "c__gdxmapvalue" )( pgx, D, &sv ); }
   int gdxOpenAppend( const char *FileName, const char *Producer, int &ErrNr ) { SS FileName_( FileName ); SS Producer_( Producer ); if( FileName_.fits && Producer_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, const char *, int * )>( "d__gdxopenappend" )( pgx, FileName_.b, Producer_.b, &ErrNr );  return rc; }
      return dlib.f<int ( * )( void *, const char *, const char *, int * )>( "c__gdxopenappend" )( pgx, FileName, Producer, &ErrNr ); }
   int gdxOpenRead( const char *FileName, int &ErrNr ) { SS FileName_( FileName ); if( FileName_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, int * )>( "d__gdxopenread" )( pgx, FileName_.b, &ErrNr );  return rc; }
      return dlib.f<int ( * )( void *, const char *, int * )>( "c__gdxopenread" )( pgx, FileName, &ErrNr ); }
   int gdxOpenReadEx( const char *FileName, int ReadMode, int &ErrNr ) { SS FileName_( FileName ); if( FileName_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, int, int * )>( "d__gdxopenreadex" )( pgx, FileName_.b, ReadMode, &ErrNr );  return rc; }
      return dlib.f<int ( * )( void *, const char *, int, int * )>( "c__gdxopenreadex" )( pgx, FileName, ReadMode, &ErrNr ); }
   int gdxOpenWrite( const char *FileName, const char *Producer, int &ErrNr ) { SS FileName_( FileName ); SS Producer_( Producer ); if( FileName_.fits && Producer_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, const char *, int * )>( "d__gdxopenwrite" )( pgx, FileName_.b, Producer_.b, &ErrNr );  return rc; }
      return dlib.f<int ( * )( void *, const char *, const char *, int * )>( "c__gdxopenwrite" )( pgx, FileName, Producer, &ErrNr ); }
   int gdxOpenWriteEx( const char *FileName, const char *Producer, int Compr, int &ErrNr ) { SS FileName_( FileName ); SS Producer_( Producer ); if( FileName_.fits && Producer_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, const char *, int, int * )>( "d__gdxopenwriteex" )( pgx, FileName_.b, Producer_.b, Compr, &ErrNr );  return rc; }
      return dlib.f<int ( * )( void *, const char *, const char *, int, int * )>( "c__gdxopenwriteex" )( pgx, FileName, Producer, Compr, &ErrNr ); }
   int gdxResetSpecialValues(  ) { return dlib.f<int ( * )( void * )>( "c__gdxresetspecialvalues" )( pgx ); }
   int gdxSetHasText( int SyNr ) { return dlib.f<int ( * )( void *, int )>( "c__gdxsethastext" )( pgx, SyNr ); }
   int gdxSetReadSpecialValues( const double *AVals ) { return dlib.f<int ( * )( void *, const double * )>( "c__gdxsetreadspecialvalues" )( pgx, AVals ); }
   int gdxSetSpecialValues( const double *AVals ) { return dlib.f<int ( * )( void *, const double * )>( "c__gdxsetspecialvalues" )( pgx, AVals ); }
   int gdxSetTextNodeNr( int TxtNr, int Node ) { return dlib.f<int ( * )( void *, int, int )>( "c__gdxsettextnodenr" )( pgx, TxtNr, Node ); }
   int gdxSetTraceLevel( int N, const char *s ) { SS s_( s ); if( s_.fits ) { int rc = dlib.f<int ( * )( void *, int, const char * )>( "d__gdxsettracelevel" )( pgx, N, s_.b );  return rc; }
      return dlib.f<int ( * )( void *, int, const char * )>( "c__gdxsettracelevel" )( pgx, N, s ); }
   int gdxSymbIndxMaxLength( int SyNr, int *LengthInfo ) { return dlib.f<int ( * )( void *, int, int * )>( "c__gdxsymbindxmaxlength" )( pgx, SyNr, LengthInfo ); }
   int gdxSymbMaxLength(  ) const { return dlib.f<int ( * )( void * )>( "c__gdxsymbmaxlength" )( pgx ); }
   int gdxSymbolAddComment( int SyNr, const char *Txt ) { SS Txt_( Txt ); if( Txt_.fits ) { int rc = dlib.f<int ( * )( void *, int, const char * )>( "d__gdxsymboladdcomment" )( pgx, SyNr, Txt_.b );  return rc; }
      return dlib.f<int ( * )( void *, int, const char * )>( "c__gdxsymboladdcomment" )( pgx, SyNr, Txt ); }
   int gdxSymbolGetComment( int SyNr, int N, char *Txt ) { SS Txt_; int rc = dlib.f<int ( * )( void *, int, int, char * )>( "d__gdxsymbolgetcomment" )( pgx, SyNr, N, Txt_.b ); Txt_.to( Txt ); return rc; }
   int gdxSymbolGetDomain( int SyNr, int *DomainSyNrs ) { return dlib.f<int ( * )( void *, int, int * )>( "c__gdxsymbolgetdomain" )( pgx, SyNr, DomainSyNrs ); }
   int gdxSymbolGetDomainX( int SyNr, char **DomainIDs ) { if( turn++ % 3 == 0 ) { NA DomainIDs_; int rc = dlib.f<int ( * )( void *, int, char ( * )[256] )>( "n__gdxsymbolgetdomainx" )( pgx, SyNr, DomainIDs_.b ); if( rc ) DomainIDs_.to( DomainIDs ); return rc; }
      SA DomainIDs_; int rc = dlib.f<int ( * )( void *, int, char * )>( "d__gdxsymbolgetdomainx" )( pgx, SyNr, DomainIDs_.b ); if( rc ) DomainIDs_.to( DomainIDs ); return rc; }
   int gdxSymbolDim( int SyNr ) { return dlib.f<int ( * )( void *, int )>( "c__gdxsymboldim" )( pgx, SyNr ); }
   int gdxSymbolInfo( int SyNr, char *SyId, int &Dimen, int &Typ ) { SS SyId_; int rc = dlib.f<int ( * )( void *, int, char *, int *, int * )>( "d__gdxsymbolinfo" )( pgx, SyNr, SyId_.b, &Dimen, &Typ ); SyId_.to( SyId ); return rc; }
   int gdxSymbolInfoX( int SyNr, int &RecCnt, int &UserInfo, char *ExplTxt ) { SS ExplTxt_; int rc = dlib.f<int ( * )( void *, int, int *, int *, char * )>( "d__gdxsymbolinfox" )( pgx, SyNr, &RecCnt, &UserInfo, ExplTxt_.b ); ExplTxt_.to( ExplTxt ); return rc; }
   int gdxSymbolSetDomain( const char **DomainIDs ) { SA DomainIDs_( DomainIDs ); if( DomainIDs_.fits ) { int rc = dlib.f<int ( * )( void *, const char * )>( "d__gdxsymbolsetdomain" )( pgx, DomainIDs_.b );  return rc; }
      return dlib.f<int ( * )( void *, const char ** )>( "c__gdxsymbolsetdomain" )( pgx, DomainIDs ); }
   int gdxSymbolSetDomainX( int SyNr, const char **DomainIDs ) { SA DomainIDs_( DomainIDs ); if( DomainIDs_.fits ) { int rc = dlib.f<int ( * )( void *, int, const char * )>( "d__gdxsymbolsetdomainx" )( pgx, SyNr, DomainIDs_.b );  return rc; }
      return dlib.f<int ( * )( void *, int, const char ** )>( "c__gdxsymbolsetdomainx" )( pgx, SyNr, DomainIDs ); }
   int gdxSystemInfo( int &SyCnt, int &UelCnt ) const { return dlib.f<int ( * )( void *, int *, int * )>( "c__gdxsysteminfo" )( pgx, &SyCnt, &UelCnt ); }
   int gdxUELMaxLength(  ) const { return dlib.f<int ( * )( void * )>( "c__gdxuelmaxlength" )( pgx ); }
   int gdxUELRegisterDone(  ) { return dlib.f<int ( * )( void * )>( "c__gdxuelregisterdone" )( pgx ); }
   int gdxUELRegisterMap( int UMap, const char *Uel ) { SS Uel_( Uel ); if( Uel_.fits ) { int rc = dlib.f<int ( * )( void *, int, const char * )>( "d__gdxuelregistermap" )( pgx, UMap, Uel_.b );  return rc; }
      return dlib.f<int ( * )( void *, int, const char * )>( "c__gdxuelregistermap" )( pgx, UMap, Uel ); }
   int gdxUELRegisterMapStart(  ) { return dlib.f<int ( * )( void * )>( "c__gdxuelregistermapstart" )( pgx ); }
   int gdxUELRegisterRaw( const char *Uel ) { SS Uel_( Uel ); if( Uel_.fits ) { int rc = dlib.f<int ( * )( void *, const char * )>( "d__gdxuelregisterraw" )( pgx, Uel_.b );  return rc; }
      return dlib.f<int ( * )( void *, const char * )>( "c__gdxuelregisterraw" )( pgx, Uel ); }
   int gdxUELRegisterRawStart(  ) { return dlib.f<int ( * )( void * )>( "c__gdxuelregisterrawstart" )( pgx ); }
   int gdxUELRegisterStr( const char *Uel, int &UelNr ) { SS Uel_( Uel ); if( Uel_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, int * )>( "d__gdxuelregisterstr" )( pgx, Uel_.b, &UelNr );  return rc; }
      return dlib.f<int ( * )( void *, const char *, int * )>( "c__gdxuelregisterstr" )( pgx, Uel, &UelNr ); }
   int gdxUELRegisterStrStart(  ) { return dlib.f<int ( * )( void * )>( "c__gdxuelregisterstrstart" )( pgx ); }
   int gdxUMFindUEL( const char *Uel, int &UelNr, int &UelMap ) { SS Uel_( Uel ); if( Uel_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, int *, int * )>( "d__gdxumfinduel" )( pgx, Uel_.b, &UelNr, &UelMap );  return rc; }
      return dlib.f<int ( * )( void *, const char *, int *, int * )>( "c__gdxumfinduel" )( pgx, Uel, &UelNr, &UelMap ); }
   int gdxUMUelGet( int UelNr, char *Uel, int &UelMap ) { SS Uel_; int rc = dlib.f<int ( * )( void *, int, char *, int * )>( "d__gdxumuelget" )( pgx, UelNr, Uel_.b, &UelMap ); Uel_.to( Uel ); return rc; }
   int gdxUMUelInfo( int &UelCnt, int &HighMap ) const { return dlib.f<int ( * )( void *, int *, int * )>( "c__gdxumuelinfo" )( pgx, &UelCnt, &HighMap ); }
   int gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomainIndexProc_t DP, int &NrElem, void *Uptr ) { if( turn++ % 2 ) { curDom = DP; return dlib.f<int ( * )( void *, int, int, int, decltype( &fDom ), int *, void * )>( "f__gdxgetdomainelements" )( pgx, SyNr, DimPos, FilterNr, DP ? fDom : nullptr, &NrElem, Uptr ); }
      return dlib.f<int ( * )( void *, int, int, int, TDomainIndexProc_t, int *, void * )>( "c__gdxgetdomainelements" )( pgx, SyNr, DimPos, FilterNr, DP, &NrElem, Uptr ); }
   int gdxCurrentDim(  ) const { return dlib.f<int ( * )( void * )>( "c__gdxcurrentdim" )( pgx ); }
   int gdxRenameUEL( const char *OldName, const char *NewName ) { SS OldName_( OldName ); SS NewName_( NewName ); if( OldName_.fits && NewName_.fits ) { int rc = dlib.f<int ( * )( void *, const char *, const char * )>( "d__gdxrenameuel" )( pgx, OldName_.b, NewName_.b );  return rc; }
      return dlib.f<int ( * )( void *, const char *, const char * )>( "c__gdxrenameuel" )( pgx, OldName, NewName ); }
   int gdxUELMaxLength(  ) { return dlib.f<int ( * )( void * )>( "c__gdxuelmaxlength" )( pgx ); }
};
}
