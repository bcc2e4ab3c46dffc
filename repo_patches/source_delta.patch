From 7e0fcd1098c2fa6a8c0cca0f36395b5ce42d359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:00 +0000
Subject: [PATCH 01/48] fix: a start-of-write call in the wrong state must not
 discard the symbol being written

---
 src/gxfile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 2f4f788..42152f1 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -730,12 +730,12 @@ bool TGXFileObj::PrepareSymbolWrite( const std::string_view Caller,
                                      int AType,
                                      int AUserInfo )
 {
+   if( !MajorCheckMode( Caller, fw_init ) ) return false;
+
    CurSyPtr = nullptr;
    ErrorList = nullptr;
    SortList = nullptr;
 
-   if( !MajorCheckMode( Caller, fw_init ) ) return false;
-
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "Symbol = "s + AName + ", Dim = "s + rtl::sysutils_p3::IntToStr( ADim ) );
 
-- 
2.43.0


From d2d958e1df6ea676f897d623c7f5fda8987f7393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:00 +0000
Subject: [PATCH 02/48] fix: a read call in the wrong state must not switch the
 object to reading

---
 src/gxfile.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 42152f1..57be095 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -880,17 +880,13 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
 {
    if( in( fmode, fr_str_data, fr_map_data, fr_mapr_data, fr_raw_data ) )
       gdxDataReadDone();// NOTE: Not covered by unit tests yet.
+   if( !MajorCheckMode( Caller, fr_init ) ) return -1;
    NrMappedAdded = 0;
    ErrorList = nullptr;
    CurSyPtr = nullptr;
    SortList = nullptr;
+   ReadPtr = std::nullopt;
 
-   if( !MajorCheckMode( Caller, fr_init ) )
-   {
-      // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
-      return -1;
-   }
    ReadUniverse = !SyNr;
    if( !ReadUniverse )
    {
@@ -1776,14 +1772,9 @@ int TGXFileObj::gdxDataReadStr( char **KeyStr, double *Values, int &DimFrst )
 int TGXFileObj::gdxDataReadDone()
 {
    static const TgxModeSet AllowedMode { fr_init, fr_raw_data, fr_map_data, fr_mapr_data, fr_str_data, fr_slice };
+   if( !MajorCheckMode( "DataReadDone"s, AllowedMode ) ) return false;
    SortList = nullptr;
    CurSyPtr = nullptr;
-   if( !MajorCheckMode( "DataReadDone"s, AllowedMode ) )
-   {
-      // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
-      return false;
-   }
    /*if( fmode == fr_slice )
    {
       for( int D {}; D < GLOBAL_MAX_INDEX_DIM; D++ )
-- 
2.43.0


From 93dc0d37fc7ad075565d48f8a0d511b07b372144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:30 +0000
Subject: [PATCH 03/48] fix: mapped reads must not depend on the caller keeping
 its key buffer or on the previously read symbol

---
 src/gxfile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 57be095..f47f64e 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -979,7 +979,6 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
    {
       CurSyPtr->SScalarFrst = false;
       std::fill_n( LastElem.begin(), FCurrentDim, INDEX_INITIAL );
-      std::fill_n( PrevElem.begin(), FCurrentDim, -1 );
       for( int D {}; D < FCurrentDim; D++ )
       {
          MinElem[D] = FFile->ReadInteger();
@@ -987,6 +986,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
          ElemType[D] = GetIntegerSize( static_cast<int64_t>(MaxElem[D]) - MinElem[D] + 1 );
       }
    }
+   std::fill_n( PrevElem.begin(), FCurrentDim, -1 );
    bool AllocOk { true };
 
    int res { -1 };
@@ -2816,6 +2816,9 @@ int TGXFileObj::gdxDataReadMap( [[maybe_unused]] int RecNr, int *KeyInt, double
    bool AddNew {}, AddError {}, BadError {};
    int FIDim { FCurrentDim };
 
+   // only changed positions are mapped below: start from the keys of the previously delivered record
+   std::copy_n( PrevElem.begin(), FCurrentDim, KeyInt );
+
 again:
    if( !DoRead( Values, DimFrst ) ) return false;
    if( FIDim < DimFrst ) DimFrst = FIDim;
-- 
2.43.0


From dfb4bb25a3b6d256138bbe944a8d54f2b348b7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:52 +0000
Subject: [PATCH 04/48] fix: mapped reads of keys outside of the element table
 are an error, not an out of bounds access

---
 src/gxfile.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index f47f64e..bc9da01 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1021,7 +1021,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
                {
                   assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
                   const auto &obj = DomainList[D];
-                  if( LastElem[D] < 0 )
+                  if( LastElem[D] < 0 || ( obj.DAction != TgdxDAction::dm_unmapped && ( LastElem[D] < 1 || LastElem[D] > UELTable->size() ) ) )
                   {
                      // NOTE: Not covered by unit tests yet.
                      ReportError( ERR_BADELEMENTINDEX );
@@ -2831,7 +2831,7 @@ again:
          assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
          const auto &obj = DomainList[D];
          // AS: Should this also be appended to the data error list???
-         if( LastElem[D] < 0 || LastElem[D] >= UELTable->size() + (UELTable->OneBased?1:0) )
+         if( LastElem[D] < 0 || LastElem[D] > UELTable->size() || ( LastElem[D] == 0 && obj.DAction != TgdxDAction::dm_unmapped ) )
          {
             ReportError( ERR_BADELEMENTINDEX );
             BadError = true;
@@ -2886,7 +2886,7 @@ again:
    {
       for( int D {}; D < FCurrentDim; D++ )
       {
-         if( LastElem[D] < 0 )
+         if( LastElem[D] < 0 || LastElem[D] > UELTable->size() || ( LastElem[D] == 0 && DomainList[D].DAction != TgdxDAction::dm_unmapped ) )
          {
             // NOTE: Not covered by unit tests yet.
             ReportError( ERR_BADELEMENTINDEX );
-- 
2.43.0


From 698202deaab3e73aff8b54d47ee404b03a3e6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 05/48] fix: gdxClose must complete the file also when no
 record was written or elements are being registered

---
 src/gxfile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index bc9da01..25b2575 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -537,7 +537,9 @@ int TGXFileObj::gdxClose()
       debugStream << "gdxClose("s << ( FFile ? FFile->GetFileName() : ""s ) << ")\n"s;// NOTE: Not covered by unit tests yet.
 
    std::string fnConv;
-   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data ) )// unfinished write
+   if( in( fmode, f_raw_elem, f_map_elem, f_str_elem ) )// unfinished registration of elements
+      fmode = fmode_AftReg;
+   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data, fw_dom_raw, fw_dom_map, fw_dom_str ) )// unfinished write
       gdxDataWriteDone();                                         // NOTE: Not covered by unit tests yet.
    if( fmode == fw_init )
    {
-- 
2.43.0


From bc4f9eb0c1045acc8ce62dd491582fd4b388eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 06/48] fix: I/O errors while writing must be reported by
 gdxClose

---
 src/gxfile.cpp      |  3 ++-
 src/rtl/p3utils.cpp | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 25b2575..bb9112a 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -630,6 +630,7 @@ int TGXFileObj::gdxClose()
          FFile->WriteInt64( offset );
    }
 
+   if( FFile ) FFile->FlushBuffer();
    int res { FFile ? FFile->GetLastIOResult() : 1 };
 
    // Many free operations. Some not necessary anymore due to RAII pattern (out of scope -> destroy)
@@ -656,7 +657,7 @@ int TGXFileObj::gdxClose()
    fmode = f_not_open;
    fstatus = stat_notopen;
 
-   if( AutoConvert && !fnConv.empty() )
+   if( !res && AutoConvert && !fnConv.empty() )
    {
       res = ConvertGDXFile( fnConv, CompressOut ? "C" : "U" );
       if( res > 0 ) res += 100;
diff --git a/src/rtl/p3utils.cpp b/src/rtl/p3utils.cpp
index 9ba4173..5999864 100644
--- a/src/rtl/p3utils.cpp
+++ b/src/rtl/p3utils.cpp
@@ -536,12 +536,19 @@ int p3FileWrite( Tp3FileHandle h, const char *buffer, uint32_t buflen, uint32_t
          res = EIO;
    }
 #else
-   if ( const auto rc = write( h, buffer, buflen ); rc < 0) {
-      res = errno;
-      numWritten = 0;
+   // a write may be performed only partially
+   numWritten = 0;
+   while( numWritten < buflen )
+   {
+      const auto rc = write( h, buffer + numWritten, buflen - numWritten );
+      if( rc < 0 && errno == EINTR ) continue;
+      if( rc <= 0 )
+      {
+         res = rc < 0 ? errno : EIO;
+         break;
+      }
+      numWritten += ui32(rc);
    }
-   else
-      numWritten = ui32(rc);
 #endif
    return res;
 }
-- 
2.43.0


From 3bc27e030dcacdc25b854ae3ddefda06c5aec9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:41 +0000
Subject: [PATCH 07/48] fix: acronym numbers out of range must be refused

---
 src/gxfile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index bb9112a..864cbc9 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2991,7 +2991,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymSetInfo: "s + AName + " index = " + rtl::sysutils_p3::IntToStr( AIndx ) ); // NOTE: Not covered by unit tests yet.
 
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    if( auto &obj = ( *AcronymList )[N - 1];
       in( fmode, AnyWriteMode ) || obj.AcrAutoGen )
    {
@@ -3027,7 +3027,7 @@ int TGXFileObj::gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &au
 {
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymGetMapping: N = "s + rtl::sysutils_p3::IntToStr( N ) ); // NOTE: Not covered by unit tests yet.
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    const auto &obj = ( *AcronymList )[N - 1];
    orgIndx = obj.AcrMap;
    newIndx = obj.AcrReadMap;
-- 
2.43.0


From 77cf4b7973efe2e18b938c2f7b626c35ff8eecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:41 +0000
Subject: [PATCH 08/48] fix: gdxAcronymAdd must return zero for an acronym that
 is already defined

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 864cbc9..44c8283 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3224,7 +3224,7 @@ int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
       {
          // NOTE: Not covered by unit tests yet.
          if( ErrorCondition( obj.AcrMap == AIndx, ERR_ACROBADADDITION ) ) return -1;
-         return N;
+         return 0;
       }
       if( ErrorCondition( obj.AcrMap != AIndx, ERR_ACROBADADDITION ) ) return -1;
    }
-- 
2.43.0


From 52867b1c4ecd7c8a884a589c07e6df2dd598f3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:41 +0000
Subject: [PATCH 09/48] fix: bulk reads that cannot be started must fail
 without touching the state of the object

---
 src/gxfile.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 44c8283..a9bfcb0 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3131,7 +3131,7 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
    TIndex XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
 
    // Following call also clears ErrorList
-   PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data );
+   if( PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
    int AFDim;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    while( DoRead( AVals.data(), AFDim ) )
@@ -3295,10 +3295,9 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
 {
    //-- Note: PrepareSymbolRead checks for the correct status
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
-   SliceSyNr = SyNr;
-   PrepareSymbolRead( "DataReadSliceStart"s, SliceSyNr, XDomains.data(), fr_raw_data );
-
    memset( ElemCounts, 0, sizeof( int ) * GLOBAL_MAX_INDEX_DIM );
+   if( PrepareSymbolRead( "DataReadSliceStart"s, SyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
+   SliceSyNr = SyNr;
 
    TgdxValues Values;
    int FDim;
@@ -3306,6 +3305,7 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
    {
       SliceIndxs[D].reset();
       SliceRevMap[D].reset();
+      SliceElems[D].clear();
    }
    while( DoRead( Values.data(), FDim ) )
       for( int D {}; D < FCurrentDim; D++ )
@@ -3356,7 +3356,7 @@ int TGXFileObj::gdxDataReadSlice( const char **UelFilterStr, int &Dimen, TDataSt
    fmode = fr_init;
    if( !GoodIndx ) return false;
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
-   PrepareSymbolRead( "DataReadSlice"s, SliceSyNr, XDomains.data(), fr_slice );
+   if( PrepareSymbolRead( "DataReadSlice"s, SliceSyNr, XDomains.data(), fr_slice ) < 0 ) return false;
    TgdxValues Values;
    TgdxUELIndex HisIndx;
    int FDim;
@@ -3618,7 +3618,7 @@ int TGXFileObj::gdxDataReadRawFastFilt( int SyNr, const char **UelFilterStr, TDa
    const auto XDomains { arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED ) };
    // -- Note: PrepareSymbolRead checks for the correct status
    const int NrRecs { PrepareSymbolRead( "gdxDataReadRawFastFilt"s, SyNr, XDomains.data(), fr_raw_data ) };
-   if( NrRecs >= 0 )
+   if( NrRecs < 0 ) return false;
    {
       bool GoodIndx { true };
       int FiltDim {};
@@ -3668,6 +3668,7 @@ int TGXFileObj::gdxDataReadRawFast( int SyNr, TDataStoreProc_t DP, int &NrRecs )
 {
    const auto XDomains { arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED ) };
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFast"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    int AFDim;
    while( DoRead( AVals.data(), AFDim ) )
@@ -3683,6 +3684,7 @@ int TGXFileObj::gdxDataReadRawFastEx( int SyNr, TDataStoreExProc_t DP, int &NrRe
    //do not know dimension yet
    std::fill( XDomains.begin(), XDomains.end(), DOMC_UNMAPPED );
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFastEx"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, valscale + 1> AVals {};
    int AFDim;
    if( gdxDataReadRawFastEx_DP_CallByRef )
-- 
2.43.0


From a771b6cd67de0a02e1e4da50f1fff31aba99068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:41 +0000
Subject: [PATCH 10/48] fix: gdxSymbolSetDomain must follow aliases safely and
 leave no trace when it refuses a domain

---
 src/gxfile.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index a9bfcb0..4ac4538 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2487,12 +2487,13 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
          SyNr = DomSy;
          do {
             const auto *obj = ( *NameList->GetObject( SyNr ) );
-            if(!AllowBogusDomain &&
-                obj->SDim == 1 &&
-                in(obj->SDataType, dt_set, dt_alias) &&
-                !(obj->SDataType == dt_alias ? *NameList->GetObject( obj->SUserInfo ) : obj)->SSetBitMap)
+            if( !AllowBogusDomain && obj->SDim == 1 && obj->SDataType == dt_set && !obj->SSetBitMap )
             {
                ReportError( ERR_NODOMAINDATA );
+               // the domain is still to be set
+               CurSyPtr->SDomSymbols = nullptr;
+               for( int DD {}; DD < CurSyPtr->SDim; DD++ )
+                  WrBitMaps[DD] = nullptr;
                return false;
             }
             if( obj->SDataType == dt_set ) break;
-- 
2.43.0


From f0f0576fde7a2889f24f9684000e7ff8df757ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:12 +0000
Subject: [PATCH 11/48] fix: gdxUELRegisterMap must refuse a user number that
 belongs to another element

---
 src/gxfile.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 4ac4538..dfe02e7 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3786,10 +3786,13 @@ int TUELTable::AddUsrNew( const char *s, size_t slen )
 
 int TUELTable::AddUsrIndxNew( const char *s, size_t slen, int UelNr )
 {
-   const int EN { AddObject( s, slen, -1 ) };
-   int res { *GetObject( EN ) };
+   int EN { IndexOf( s ) };
+   int res { EN < 0 ? -1 : *GetObject( EN ) };
    if( res < 0 )
    {
+      // not a user number, or the number of another element
+      if( UelNr < 0 || UsrUel2Ent->GetMapping( UelNr ) >= 0 ) return -1;
+      if( EN < 0 ) EN = AddObject( s, slen, -1 );
       res = UelNr;
       *GetObject( EN ) = res;
       UsrUel2Ent->SetMapping( res, EN );
-- 
2.43.0


From 4b3abe1f0d504ed241d47992d0b44332a14e308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:12 +0000
Subject: [PATCH 12/48] fix: renaming an element must be effective at once for
 a running string write

---
 src/gxfile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index dfe02e7..fcb813e 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2689,6 +2689,10 @@ int TGXFileObj::gdxRenameUEL( const char *OldName, const char *NewName )
    if( UELTable->IndexOf( S ) >= 0 )
       return 3;
    UELTable->RenameEntry( N, S );
+   // the label may be remembered by a running string write
+   if( fmode == fw_str_data )
+      for( int D {}; D < FCurrentDim; D++ )
+         LastStrElem[D].front() = std::numeric_limits<char>::max();
    return 0;
 }
 
-- 
2.43.0


From 08becd71e6b7dc4938157d91bcb276d5956c7141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:12 +0000
Subject: [PATCH 13/48] fix: strings of more than 255 characters must not
 overrun short string buffers

---
 src/gdlib/gmsstrm.cpp | 5 +++--
 src/gdlib/utils.cpp   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 9423d61..2d51774 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -249,8 +249,9 @@ void TXStream::WriteString( const std::string_view s )
 #endif
    static sstring buf {};
    if( Paranoid ) ParWrite( RWType::rw_string );
-   strConvCppToDelphi( s, buf.data() );
-   Write( buf.data(), static_cast<uint32_t>( s.length() ) + 1 );
+   const auto ss = s.substr( 0, 255 );// capacity of a short string
+   strConvCppToDelphi( ss, buf.data() );
+   Write( buf.data(), static_cast<uint32_t>( ss.length() ) + 1 );
 }
 
 void TXStream::WriteDouble( double x )
diff --git a/src/gdlib/utils.cpp b/src/gdlib/utils.cpp
index 602c8e7..d7990de 100644
--- a/src/gdlib/utils.cpp
+++ b/src/gdlib/utils.cpp
@@ -176,6 +176,7 @@ const char *trimRight( const char *s,
       if( static_cast<unsigned char>( s[i] ) > 32 )
          slen = i;
    if( ++slen == i ) return s;
+   slen = std::min( slen, 255 );// capacity of a short string
    std::memcpy( storage, s, slen );
    storage[slen] = '\0';
    return storage;
-- 
2.43.0


From 1d5385a347c080420b302fe4dbe805be9a409044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:46 +0000
Subject: [PATCH 14/48] fix: objects must not share scratch buffers (used from
 different threads)

---
 src/gdlib/gmsstrm.cpp |  2 +-
 src/gxfile.cpp        | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 2d51774..6e15189 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -247,7 +247,7 @@ void TXStream::WriteString( const std::string_view s )
       *fstext << "WriteString@" << GetPosition() << "#" << ++cnt << ": " << s << "\n";
    }
 #endif
-   static sstring buf {};
+   sstring buf;
    if( Paranoid ) ParWrite( RWType::rw_string );
    const auto ss = s.substr( 0, 255 );// capacity of a short string
    strConvCppToDelphi( ss, buf.data() );
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index fcb813e..50e8f78 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -482,7 +482,7 @@ int TGXFileObj::gdxDataWriteStr( const char **KeyStr, const double *Values )
          debugStream << " " << KeyStr[D] << ( D + 1 < FCurrentDim ? "," : "" ) << "\n";
    }
    // Could actually be GLOBAL_UEL_IDENT_SIZE but is ShortString in Delphi
-   static sstring SVstorage;
+   sstring SVstorage;
    for( int D {}; D < FCurrentDim; D++ )
    {
       int SVlen;
@@ -1516,8 +1516,8 @@ void TGXFileObj::AddToErrorListDomErrs( const std::array<int, GLOBAL_MAX_INDEX_D
    else if( ErrorList->GetCount() >= 11 )
       return;// NOTE: Not covered by unit tests yet.
 
-   static std::array<int, GLOBAL_MAX_INDEX_DIM> keys {};
-   static std::array<double, GMS_VAL_MAX> vals {};
+   std::array<int, GLOBAL_MAX_INDEX_DIM> keys {};
+   std::array<double, GMS_VAL_MAX> vals {};
 
    for( int D {}; D < FCurrentDim; D++ )
    {
@@ -2139,7 +2139,7 @@ int TGXFileObj::gdxAddSetText( const char *Txt, int &TxtNr )
       TxtNr = 0;
       return false;
    }
-   static sstring s;
+   sstring s;
    assignPCharToBuf( Txt, s.data(), GMS_SSSIZE );
    const int slen { MakeGoodExplText( s.data() ) };
    TxtNr = SetTextList->Add( s.data(), slen );
@@ -2601,7 +2601,7 @@ int TGXFileObj::gdxUELRegisterRaw( const char *Uel )
    if( ( TraceLevel >= TraceLevels::trl_all || fmode != f_raw_elem ) && !CheckMode( "UELRegisterRaw"s, f_raw_elem ) )
       return false;// NOTE: Not covered by unit tests yet.
 
-   static sstring svStorage;
+   sstring svStorage;
    int svLen;
    const char *SV { trimRight( Uel, svStorage.data(), svLen ) };
    if( ErrorCondition( GoodUELString( SV, svLen ), ERR_BADUELSTR ) ) return false;
@@ -2621,7 +2621,7 @@ int TGXFileObj::gdxUELRegisterStr( const char *Uel, int &UelNr )
 {
    if( ( TraceLevel >= TraceLevels::trl_all || fmode != f_str_elem ) && !CheckMode( "UELRegisterStr"s, f_str_elem ) )
       return false; // not covered by unit test
-   static sstring SVstorage;
+   sstring SVstorage;
    int svlen;
    const char *SV { trimRight( Uel, SVstorage.data(), svlen ) };
    if( ErrorCondition( GoodUELString( SV, svlen ), ERR_BADUELSTR ) )
@@ -2769,7 +2769,7 @@ int TGXFileObj::gdxUELRegisterMapStart()
 int TGXFileObj::gdxUELRegisterMap( int UMap, const char *Uel )
 {
    int svLen;
-   static sstring svStorage;
+   sstring svStorage;
    const char *SV { trimRight( Uel, svStorage.data(), svLen ) };
    if( TraceLevel >= TraceLevels::trl_all || fmode != f_map_elem )
    {
@@ -3577,7 +3577,7 @@ int TGXFileObj::gdxUMFindUEL( const char *Uel, int &UelNr, int &UelMap )
       UelNr = -1;
       return false;
    }
-   static sstring trimmedUelStorage;
+   sstring trimmedUelStorage;
    int trimmedUelLen;
    UelNr = UELTable->IndexOf( trimRight( Uel, trimmedUelStorage.data(), trimmedUelLen ) );
    if( UelNr < 0 ) return false;
-- 
2.43.0


From be681facd265d3ae9f27e2c38146b621ed75c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:46 +0000
Subject: [PATCH 15/48] fix: a failed open or a close must not leave parts of
 the old file behind

---
 src/gxfile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 50e8f78..7807f2b 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -653,6 +653,7 @@ int TGXFileObj::gdxClose()
    FilterList = nullptr;
    AcronymList = nullptr;
    MapSetText = nullptr;
+   CurSyPtr = nullptr;
 
    fmode = f_not_open;
    fstatus = stat_notopen;
@@ -1866,7 +1867,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
 
    auto FileErrorNr = [&] {
       ErrNr = LastError;
-      FFile = nullptr;
+      gdxClose();// releases what has been read so far
       return false;
    };
 
@@ -2086,6 +2087,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
 
    LastError = ERR_NOERROR;
    gdxResetSpecialValues();
+   CurSyPtr = nullptr;
    fmode = fr_init;
    fstatus = stat_read;
    FFile->SetCompression( false );
-- 
2.43.0


From fd1b021088913c1d56b0b98f6aca8aef277fdeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:46 +0000
Subject: [PATCH 16/48] fix: the size of the universe of the previous file must
 not be reported for a new one

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 7807f2b..1fd5675 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -457,6 +457,7 @@ int TGXFileObj::gdxOpenWriteEx( const char *FileName, const char *Producer, int
    fstatus = stat_write;
    DomainStrList = std::make_unique<TDomainStrList>();
    DomainStrList->OneBased = true;
+   UelCntOrig = 0;
    return true;
 }
 
-- 
2.43.0


From dfe6caace59447b980936e040151f051b8a36806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:46 +0000
Subject: [PATCH 17/48] fix: gdxOpenAppend must return the error number for
 files too old to append to

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 1fd5675..8e1bc53 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3450,6 +3450,7 @@ int TGXFileObj::gdxOpenAppend( const char *FileName, const char *Producer, int &
    if( VersionRead < 7 )
    {
       ReportError( ERR_FILETOOLDFORAPPEND );
+      ErrNr = ERR_FILETOOLDFORAPPEND;
       gdxClose();
       return 0;
    }
-- 
2.43.0


From 4885abbff75de81431ed4184b26685519730340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:46 +0000
Subject: [PATCH 18/48] fix: queries and acronym calls while no file is open
 must not access missing tables

---
 src/gxfile.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 8e1bc53..6fac6d6 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2370,7 +2370,7 @@ int TGXFileObj::gdxSetSpecialValues( const double *AVals )
 
 int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 {
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
    for( int D {}; D < SyPtr->SDim; D++ )
       DomainSyNrs[D] = !SyPtr->SDomSymbols ? 0 : SyPtr->SDomSymbols[D];
@@ -2379,7 +2379,7 @@ int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 
 int TGXFileObj::gdxSymbolGetDomainX( int SyNr, char **DomainIDs )
 {
-   if( ErrorCondition( !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
+   if( ErrorCondition( NameList && !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
 
    for( int D {}; D < SyPtr->SDim; D++ )
@@ -2547,7 +2547,7 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
 int TGXFileObj::gdxSymbolSetDomainX( int SyNr, const char **DomainIDs )
 {
    // check for write or append only
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    TgdxSymbRecord * const SyPtr = *NameList->GetObject( SyNr );
 
    if( verboseTrace && TraceLevel == TraceLevels::trl_all )
@@ -2974,7 +2974,7 @@ int TGXFileObj::gdxAcronymCount() const
 
 int TGXFileObj::gdxAcronymGetInfo( int N, char *AName, char *Txt, int &AIndx ) const
 {
-   if( N < 1 || N > AcronymList->size() )
+   if( !AcronymList || N < 1 || N > AcronymList->size() )
    {
       AName[0] = Txt[0] = '\0';
       AIndx = 0;
@@ -2999,7 +2999,8 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymSetInfo: "s + AName + " index = " + rtl::sysutils_p3::IntToStr( AIndx ) ); // NOTE: Not covered by unit tests yet.
 
-   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( AcronymList != nullptr, ERR_BADMODE ) ||
+       ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    if( auto &obj = ( *AcronymList )[N - 1];
       in( fmode, AnyWriteMode ) || obj.AcrAutoGen )
    {
@@ -3035,7 +3036,8 @@ int TGXFileObj::gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &au
 {
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymGetMapping: N = "s + rtl::sysutils_p3::IntToStr( N ) ); // NOTE: Not covered by unit tests yet.
-   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( AcronymList != nullptr, ERR_BADMODE ) ||
+       ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    const auto &obj = ( *AcronymList )[N - 1];
    orgIndx = obj.AcrMap;
    newIndx = obj.AcrReadMap;
@@ -3122,7 +3124,7 @@ int TGXFileObj::gdxSetTextNodeNr( int TxtNr, int Node )
 int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomainIndexProc_t DP, int &NrElem, void *UPtr )
 {
    gdxGetDomainElements_DP = DP;
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    int Dim { ( *NameList->GetObject( SyNr ) )->SDim };
    if( !Dim || ErrorCondition( DimPos >= 1 && DimPos <= Dim, ERR_BADDIMENSION ) ) return false;
    const TDFilter *DFilter = FilterNr == DOMC_EXPAND ? nullptr : FilterList->FindFilter( FilterNr );
@@ -3225,6 +3227,7 @@ int TGXFileObj::gdxSetTraceLevel( int N, const char *s )
 
 int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
 {
+   if( ErrorCondition( AcronymList != nullptr, ERR_BADMODE ) ) return 0;
    for( int N {}; N < (int) AcronymList->size(); N++ )
    {
       const auto &obj = ( *AcronymList )[N];
@@ -3255,7 +3258,7 @@ int TGXFileObj::gdxAcronymName( double V, char *AName )
       AName[0] = '\0';
    else
    {
-      const int N { AcronymList->FindEntry( Indx ) };
+      const int N { AcronymList ? AcronymList->FindEntry( Indx ) : -1 };
       assignStrToBuf( N < 0 ? "UnknownAcronym"s + rtl::sysutils_p3::IntToStr( Indx ) : ( *AcronymList )[N].AcrName, AName, GMS_SSSIZE );
       return true;
    }
@@ -3528,7 +3531,7 @@ int TGXFileObj::gdxSymbIndxMaxLength( int SyNr, int *LengthInfo )
 int TGXFileObj::gdxSymbMaxLength() const
 {
    int acc {};
-   for( int N { 1 }; N <= NameList->Count(); N++ )
+   for( int N { 1 }; NameList && N <= NameList->Count(); N++ )
       acc = std::max<int>( acc, static_cast<int>( std::strlen( NameList->GetString( N ) ) ) );
    return acc;
 }
@@ -3570,7 +3573,7 @@ int TGXFileObj::gdxSymbolGetComment( int SyNr, int N, char *Txt )
 
 int TGXFileObj::gdxUELMaxLength() const
 {
-   return UELTable->GetMaxUELLength();
+   return UELTable ? UELTable->GetMaxUELLength() : 0;
 }
 
 int TGXFileObj::gdxUMFindUEL( const char *Uel, int &UelNr, int &UelMap )
-- 
2.43.0


From 2bd785aa66bc137146fde6117fd293ad40daa307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:08 +0000
Subject: [PATCH 19/48] fix: a mapped read must not read past the end of the
 symbol

---
 src/gxfile.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 6fac6d6..e844631 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2831,7 +2831,13 @@ int TGXFileObj::gdxDataReadMap( [[maybe_unused]] int RecNr, int *KeyInt, double
    std::copy_n( PrevElem.begin(), FCurrentDim, KeyInt );
 
 again:
-   if( !DoRead( Values, DimFrst ) ) return false;
+   if( !DoRead( Values, DimFrst ) )
+   {
+      // nothing more to deliver: behave like a sorted read at its end
+      ReadPtr = std::nullopt;
+      fmode = fr_map_data;
+      return false;
+   }
    if( FIDim < DimFrst ) DimFrst = FIDim;
    FIDim = FCurrentDim;
    if( DimFrst > 0 )
-- 
2.43.0


From 841677711ffe47e5047060d578cbe898b54a79d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 20/48] fix: gdxGetDomainElements must not look up keys outside
 of the element table

---
 src/gxfile.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index e844631..24d56b7 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3154,6 +3154,12 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
    {
       assert( DimPos >= 1 && DimPos <= GLOBAL_MAX_INDEX_DIM );
       const int RawNr { LastElem[DimPos - 1] };
+      if( ( DFilter || DP ) && ( RawNr < 1 || RawNr > UELTable->size() ) )
+      {
+         ReportError( ERR_BADELEMENTINDEX );
+         gdxDataReadDone();
+         return false;
+      }
       if( DFilter )
       {
          if( const int MapNr { UELTable->GetUserMap( RawNr ) }; !DFilter->InFilter( MapNr ) )
-- 
2.43.0


From 05495479a4d041b2337fcfb51b8e918be6bd2b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:12 +0000
Subject: [PATCH 21/48] fix: comments of more than 255 characters must be
 stored with a terminator

---
 src/gxfile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 24d56b7..715d727 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3564,7 +3564,9 @@ int TGXFileObj::gdxSymbolAddComment( int SyNr, const char *Txt )
    if( !SyPtr->SCommentsList )
       SyPtr->SCommentsList = std::make_optional<TCommentsList>();
    // AS: Limit to 255 characters since this will be stored as ShortString when saving comments list to GDX file on gdxClose
-   SyPtr->SCommentsList->Add( Txt, std::min<int>( 255, (int) std::strlen( Txt ) ) );
+   sstring s;
+   assignPCharToBuf( Txt, s.data(), GMS_SSSIZE );
+   SyPtr->SCommentsList->Add( s.data(), std::strlen( s.data() ) );
    return true;
 }
 
-- 
2.43.0


From a815beeb60163d226da2e4ef88a3eebf7e3c2f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:12 +0000
Subject: [PATCH 22/48] fix: strings returned to the caller must be truncated
 to the size of the buffer

---
 src/gdlib/utils.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 25e0508..0ad6a07 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -695,12 +695,10 @@ int strCompare( const char *S1,
 
 inline void assignStrToBuf( const std::string &s, char *buf, const int outBufSize = 256 )
 {
-   if( static_cast<int>( s.length() ) > outBufSize ) return;
-#if defined( _WIN32 )
-   std::memcpy( buf, s.c_str(), s.length() + 1 );
-#else
-   std::strcpy( buf, s.c_str() );
-#endif
+   // truncate when exceeding
+   const auto len = std::min( static_cast<int>( s.length() ), outBufSize - 1 );
+   std::memcpy( buf, s.c_str(), len );
+   buf[len] = '\0';
 }
 
 inline void assignPCharToBuf( const char *s, const size_t slen, char *buf, const size_t outBufSize = 256 )
-- 
2.43.0


From abdb9d8d05af9faf57d1f04e44c2347a8d514c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:34 +0000
Subject: [PATCH 23/48] fix: gdxDataSliceUELS must not look up keys outside of
 the element table

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 715d727..0174279 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3410,7 +3410,7 @@ int TGXFileObj::gdxDataSliceUELS( const int *SliceKeyInt, char **KeyStr )
       else
       {
          if( const int N = SliceRevMap[D].GetMapping( SliceKeyInt[HisDim++] );
-            N < 0 )
+            N < 1 || N > UELTable->size() )
          {
             KeyStr[D][0] = '?';
             KeyStr[D][1] = '\0';
-- 
2.43.0


From c098c26fdd6e09dcf5d72541232f13a743407509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:25 +0000
Subject: [PATCH 24/48] fix: closing a file in the middle of an expanding read
 must not affect the next file

The number of elements added by the unfinished read was kept and used by
gdxDataReadDone on the element table of the next file.
---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 0174279..90ecc1e 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -655,6 +655,7 @@ int TGXFileObj::gdxClose()
    AcronymList = nullptr;
    MapSetText = nullptr;
    CurSyPtr = nullptr;
+   NrMappedAdded = 0;
 
    fmode = f_not_open;
    fstatus = stat_notopen;
-- 
2.43.0


From 3c334349e1172bed12731360a3ed141a235d95f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 25/48] fix: an incomplete or damaged compressed block must not
 be taken for data

---
 src/gdlib/gmsstrm.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 6e15189..f3256c5 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -608,12 +608,13 @@ bool TBufferedFileStream::FillBuffer()
       else
       {
          const auto WLen = ui16( ( CBufPtr->cxHeader.cxB1 << 8 ) + CBufPtr->cxHeader.cxB2 );
-         if( !CBufPtr->cxHeader.cxTyp ) NrLoaded = TXFileStream::Read( BufPtr.data(), WLen );
+         if( WLen > ( CBufPtr->cxHeader.cxTyp ? CBufSize : BufSize ) ) NrLoaded = 0;// not a block of ours
+         else if( !CBufPtr->cxHeader.cxTyp ) NrLoaded = TXFileStream::Read( BufPtr.data(), WLen );
          else
          {
-            TXFileStream::Read( &CBufPtr->cxData, WLen );
             unsigned long XLen = BufSize;// we need a var parameter
-            uncompress( BufPtr.data(), &XLen, &CBufPtr->cxData, WLen );
+            if( TXFileStream::Read( &CBufPtr->cxData, WLen ) < WLen || uncompress( BufPtr.data(), &XLen, &CBufPtr->cxData, WLen ) != Z_OK )
+               XLen = 0;// incomplete or damaged block
             NrLoaded = ui32(XLen);
          }
       }
-- 
2.43.0


From 6ce1d4f3c42efa1ed2f9886c64f818e3cf84440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 26/48] fix: opening a truncated or damaged file must fail
 instead of looping or using undefined values

---
 src/gdlib/gmsstrm.cpp | 3 ++-
 src/gdlib/gmsstrm.hpp | 8 ++++----
 src/gxfile.cpp        | 6 ++++--
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index f3256c5..867d3e6 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -361,12 +361,13 @@ std::string TXStream::ReadString()
 void TXStream::ReadSString(char *s, uint8_t &len)
 {
    if( Paranoid ) ParCheck( RWType::rw_string );
+   len = 0;
    if( !Read( &len, 1 ) || !len )
    {
       s[0] = '\0';
       return;
    }
-   Read( s, len );
+   len = ui8( Read( s, len ) );
    s[len] = '\0';
 }
 
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index 0f547d1..ecd1c13 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -133,7 +133,7 @@ protected:
    T ReadValue( RWType rwt )
    {
       if( Paranoid ) ParCheck( rwt );
-      T res;
+      T res {};
 #if !defined( NDEBUG ) && defined(__IN_CPPMEX__)
       auto numBytesRead { Read( &res, sizeof( T ) ) };
       // is not required to generally hold and code automatically detects EOF otherwise
@@ -282,11 +282,11 @@ class TMiBufferedStream : public TBufferedFileStream
    T ReadValueOrdered( RWType rwt, bool order_type )
    {
       if( Paranoid ) ParCheck( rwt );
-      T res;
+      T res {};
       if( !order_type ) Read( &res, sizeof( T ) );
       else
       {
-         T tmp;
+         T tmp {};
          Read( &tmp, sizeof( T ) );
          reverseBytesMax8( &tmp, &res, sizeof( T ) );
       }
@@ -296,7 +296,7 @@ class TMiBufferedStream : public TBufferedFileStream
    template<typename T>
    void initOrderCommon( uint8_t &order_type, uint8_t &size_type, T patConstant )
    {
-      T v1, v2;
+      T v1 {}, v2 {};
       Read( &size_type, sizeof( uint8_t ) );
       if( size_type != sizeof( T ) )
       {
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 90ecc1e..0989256 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1407,7 +1407,7 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
       return true;
    }
 
-   uint8_t B;
+   uint8_t B { 255 };// end of data if there is nothing left to read
    FFile->Read( &B, 1 );
    if( B > DeltaForRead )
    {// relative change in last dimension
@@ -2015,7 +2015,9 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       uint8_t slen;
       sstring s;
       FFile->ReadSString( s.data(), slen );
+      const int NrStored { UELTable->size() };
       UELTable->StoreObject( s.data(), slen, -1 );
+      if( UELTable->size() == NrStored ) break;// not a new element: damaged table or end of file, the marker check below fails
    }
    UelCntOrig = UELTable->size(); // needed when reading universe
 
@@ -2078,7 +2080,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       while( true )
       {
          const int SyNr = FFile->ReadInteger();
-         if( SyNr <= 0 ) break;
+         if( SyNr <= 0 || SyNr > NameList->size() ) break;
          const auto sym = *NameList->GetObject( SyNr );
          sym->SDomStrings = std::make_unique<int[]>( sym->SDim );
          for( int D {}; D < sym->SDim; D++ )
-- 
2.43.0


From c1203438fb4726ec1a60050b92b49c22a2d3dbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:17 +0000
Subject: [PATCH 27/48] fix: a file of the other byte order must not be
 appended to in the native one

---
 src/gdlib/gmsstrm.cpp | 5 +++++
 src/gdlib/gmsstrm.hpp | 1 +
 src/gxfile.cpp        | 7 +++++++
 3 files changed, 13 insertions(+)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 867d3e6..837f8f0 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -879,6 +879,11 @@ bool TMiBufferedStream::IntsNeedFlip() const
    return order_integer;
 }
 
+bool TMiBufferedStream::DoublesNeedFlip() const
+{
+   return order_double;
+}
+
 void TMiBufferedStream::WriteGmsInteger( int N )
 {
 #ifdef WF_TEXT
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index ecd1c13..52adebf 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -328,6 +328,7 @@ public:
    int64_t ReadInt64() override;
    [[nodiscard]] bool WordsNeedFlip() const;
    [[nodiscard]] bool IntsNeedFlip() const;
+   [[nodiscard]] bool DoublesNeedFlip() const;
    void WriteGmsInteger( int N );
    void WriteGmsDouble( double D );
    int ReadGmsInteger();
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 0989256..f769009 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3472,6 +3472,13 @@ int TGXFileObj::gdxOpenAppend( const char *FileName, const char *Producer, int &
       gdxClose();
       return 0;
    }
+   if( FFile->WordsNeedFlip() || FFile->IntsNeedFlip() || FFile->DoublesNeedFlip() )
+   {// we write in our own byte order only
+      ReportError( ERR_BADDATAFORMAT );
+      ErrNr = ERR_BADDATAFORMAT;
+      gdxClose();
+      return 0;
+   }
    fmode = fw_init;
    fstatus = stat_write;
    FFile->SetPosition( NextWritePosition );
-- 
2.43.0


From 96ff859d0ba92b1c3bc78c7315826222573ba4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:38 +0000
Subject: [PATCH 28/48] fix: gdxClose must report a failure of closing the file

---
 src/gdlib/gmsstrm.cpp | 6 ++++++
 src/gdlib/gmsstrm.hpp | 1 +
 src/gxfile.cpp        | 6 +++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 837f8f0..0daefea 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -532,9 +532,15 @@ TXFileStream::TXFileStream( std::string AFileName, const FileAccessMode AMode )
 }
 
 TXFileStream::~TXFileStream()
+{
+   CloseFile();
+}
+
+void TXFileStream::CloseFile()
 {
    if( FileIsOpen )
       SetLastIOResult( p3FileClose(FS) );
+   FileIsOpen = false;
 }
 
 void TXFileStream::ApplyPassWord( const char *PR, char *PW, int Len, int64_t Offs ) const
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index 52adebf..52df047 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -220,6 +220,7 @@ public:
 
    void SetLastIOResult( int V );
    int GetLastIOResult();
+   void CloseFile();
 
    void SetPassWord( const std::string &s );
    [[nodiscard]] bool GetUsesPassWord() const;
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index f769009..1e12e48 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -631,7 +631,11 @@ int TGXFileObj::gdxClose()
          FFile->WriteInt64( offset );
    }
 
-   if( FFile ) FFile->FlushBuffer();
+   if( FFile )
+   {
+      FFile->FlushBuffer();
+      FFile->CloseFile();// may fail as well
+   }
    int res { FFile ? FFile->GetLastIOResult() : 1 };
 
    // Many free operations. Some not necessary anymore due to RAII pattern (out of scope -> destroy)
-- 
2.43.0


From 80b1a47ad312da661fe7407b06b3a07c8f5d2652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:24 +0000
Subject: [PATCH 29/48] fix: gdxdiff must use the default record of the
 equation's type, not index past the table

---
 src/tools/gdxdiff/gdxdiff.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index e57c664..fe10955 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -572,11 +572,15 @@ void CompareSy(const int Sy1, const int Sy2) {
 
   // Create default record for this type
   if (ST == dt_var || ST == dt_equ) {
+    const double(*DefRec)[GMS_VAL_MAX];
     if (ST == dt_var) {
-      std::copy(std::begin(gmsDefRecVar[VarEquType]), std::end(gmsDefRecVar[VarEquType]), std::begin(DefValues));
+      DefRec = &gmsDefRecVar[VarEquType >= 0 && VarEquType < GMS_VARTYPE_MAX ? VarEquType : GMS_VARTYPE_UNKNOWN];
     } else {
-      std::copy(std::begin(gmsDefRecEqu[VarEquType]), std::end(gmsDefRecEqu[VarEquType]), std::begin(DefValues));
+      // The user info of an equation is its type plus an offset
+      const int EquType{VarEquType - GMS_EQU_USERINFO_BASE};
+      DefRec = &gmsDefRecEqu[EquType >= 0 && EquType < GMS_EQUTYPE_MAX ? EquType : GMS_EQUTYPE_E];
     }
+    std::copy(std::begin(*DefRec), std::end(*DefRec), std::begin(DefValues));
   }
 
   if (Dim >= GMS_MAX_INDEX_DIM || (DiffOnly && Dim - 1 >= GMS_MAX_INDEX_DIM)) {
-- 
2.43.0


From ddb5a9d9e030f5884791134a9f23baf7303351a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:33 +0000
Subject: [PATCH 30/48] fix: gdxdiff must number the FilesCompared symbol with
 _N, not 95N

---
 src/tools/gdxdiff/gdxdiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index fe10955..00b00c9 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -1105,7 +1105,7 @@ int main(const int argc, const char *argv[]) {
     do {
       ID = "FilesCompared";
       if (N > 0) {
-        ID += std::to_string('_') + std::to_string(N);
+        ID += '_' + std::to_string(N);
       }
       if (gdxFindSymbol(PGXDIF, ID.data(), &NN) == 0) {
         break;
-- 
2.43.0


From 07f015a34333ff0b4c81e5e96934b8be95ba113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:33 +0000
Subject: [PATCH 31/48] fix: gdxdiff DiffOnly adds two dimensions to variables
 and equations; check the limit for both

---
 src/tools/gdxdiff/gdxdiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 00b00c9..2aa6004 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -583,7 +583,7 @@ void CompareSy(const int Sy1, const int Sy2) {
     std::copy(std::begin(*DefRec), std::end(*DefRec), std::begin(DefValues));
   }
 
-  if (Dim >= GMS_MAX_INDEX_DIM || (DiffOnly && Dim - 1 >= GMS_MAX_INDEX_DIM)) {
+  if (Dim >= GMS_MAX_INDEX_DIM || (DiffOnly && (ST == dt_var || ST == dt_equ) && Dim + 1 >= GMS_MAX_INDEX_DIM)) {
     Status = StatusCode::sc_dim10;
   }
 
-- 
2.43.0


From b29ad65eb8b47baa296698994eaccf47aa5f8c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:44 +0000
Subject: [PATCH 32/48] fix: gdxmerge ID and EXCLUDE must select symbols
 case-insensitively

---
 src/tools/gdxmerge/gdxmerge.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 1daf28b..2b4195d 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -23,6 +23,7 @@
  * SOFTWARE.
  */
 
+#include <algorithm>
 #include <cstring>
 #include <iomanip>
 #include <iostream>
@@ -124,7 +125,9 @@ int SymbolList::AddUEL(const library::ShortString &S) {
 
 int SymbolList::AddSymbol(const std::string &AName, const int ADim, const gdxSyType AType, const int ASubTyp) {
   auto is_in_list = [](const std::vector<std::string> &list, const std::string &value) {
-    return std::find(list.begin(), list.end(), value) != list.end();
+    return std::any_of(list.begin(), list.end(), [&value](const std::string &item) {
+      return gdlib::strutilx::StrUEqual(item, value);
+    });
   };
 
   if ((!IncludeList.empty() && !is_in_list(IncludeList, AName)) ||
-- 
2.43.0


From 35fe4538c59136bf13225b6e7664fef528cdfbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:44 +0000
Subject: [PATCH 33/48] fix: gdxmerge must not read past the keys of a big
 symbol

---
 src/tools/gdxmerge/gdxmerge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 2b4195d..864a6f6 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -337,7 +337,7 @@ bool SymbolList::CollectBigOne(const int SyNr) {
       IndxI[0] = AddUEL(FileId);
       gdxDataReadStrStart(PGX, N, &NrRecs);
       while (gdxDataReadStr(PGX, IndxSPtrs, Vals, &FDim) != 0) {
-        for (D = FDim - 1; D <= SyObj->SyDim; D++) {
+        for (D = FDim - 1; D < SyObj->SyDim - 1; D++) {
           IndxI[D + 1] = AddUEL(library::ShortString{IndxSPtrs[D]});
         }
         if (SyObj->SyTyp == dt_set && Vals[GMS_VAL_LEVEL] != 0) {
-- 
2.43.0


From 10880b1d8d6c847cf0d24dfe1f14995bd23ee862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:44 +0000
Subject: [PATCH 34/48] fix: gdxmerge must share acronyms with every file it
 reads a big symbol from

---
 src/tools/gdxmerge/gdxmerge.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 864a6f6..357b389 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -331,9 +331,9 @@ bool SymbolList::CollectBigOne(const int SyNr) {
       return false;
     }
 
+    ShareAcronyms(PGX);
+
     if (gdxFindSymbol(PGX, gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetString(SyNr), &N) > 0) {
-      // We did this already in AddPGXFile:
-      // ShareAcronyms(PGX);
       IndxI[0] = AddUEL(FileId);
       gdxDataReadStrStart(PGX, N, &NrRecs);
       while (gdxDataReadStr(PGX, IndxSPtrs, Vals, &FDim) != 0) {
-- 
2.43.0


From 9a9f5a075ceb52e93fb3cfaa011c11cfaeb1d93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:44 +0000
Subject: [PATCH 35/48] fix: gdxmerge must skip an unreadable file, not drop
 every big symbol

---
 src/tools/gdxmerge/gdxmerge.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 357b389..336d673 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -328,7 +328,8 @@ bool SymbolList::CollectBigOne(const int SyNr) {
     if (ErrNr != 0) {
       gdxErrorStr(PGX, ErrNr, ErrMsg.data());
       library::printErrorMessage("Error reading file, message: " + ErrMsg);
-      return false;
+      gdxFree(&PGX);
+      continue;
     }
 
     ShareAcronyms(PGX);
-- 
2.43.0


From 3e40419e965db27994b78222a51e9abfcfbf46f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:44 +0000
Subject: [PATCH 36/48] fix: gdxmerge must check and describe a big symbol like
 any other

---
 src/tools/gdxmerge/gdxmerge.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 336d673..4d0d1fa 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -256,8 +256,6 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
     }
 
     if (Pass == ProcessPass::RpScan ||
-        (Pass == ProcessPass::RpSmall && SyObj->SySize >= SizeCutOff) ||
-        (Pass == ProcessPass::RpBig && SyObj->SySize < SizeCutOff) ||
         CheckError(Dim + 1 == SyObj->SyDim, "Dimensions do not match") ||
         CheckError(SyTyp == SyObj->SyTyp, "Types do not match") ||
         ((SyTyp == dt_var || SyTyp == dt_equ) &&
@@ -271,6 +269,11 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
       CheckError(SyObj->SyExplTxt == SyText, "Explanatory text is different");
     }
 
+    if ((Pass == ProcessPass::RpSmall && SyObj->SySize >= SizeCutOff) ||
+        (Pass == ProcessPass::RpBig && SyObj->SySize < SizeCutOff)) {
+      continue;
+    }
+
     IndxI[0] = AddUEL(FileId);
     gdxDataReadStrStart(PGX, N, &NrRecs);
     while (gdxDataReadStr(PGX, IndxSPtrs, Vals, &FDim) != 0) {
@@ -297,7 +300,8 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
 
 bool SymbolList::CollectBigOne(const int SyNr) {
   gdxHandle_t PGX;
-  int N, NrRecs, FDim, D, INode, ErrNr, FNr;
+  int N, NrRecs, FDim, D, INode, ErrNr, FNr, Dim, SyITyp, SySubTyp, DummyCount;
+  gdxSyType SyTyp;
   GAMSSymbol *SyObj;
 
   gdxStrIndex_t IndxS{};
@@ -306,7 +310,7 @@ bool SymbolList::CollectBigOne(const int SyNr) {
 
   gdxUelIndex_t IndxI{};
   gdxValues_t Vals{};
-  library::ShortString Txt, ErrMsg, FileName, FileId;
+  library::ShortString Txt, ErrMsg, FileName, FileId, SyName, SyText;
 
   SyObj = gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetObject(SyNr);
   if (!SyObj->SyData) {
@@ -335,9 +339,19 @@ bool SymbolList::CollectBigOne(const int SyNr) {
     ShareAcronyms(PGX);
 
     if (gdxFindSymbol(PGX, gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetString(SyNr), &N) > 0) {
+      // Symbols that do not match have been reported by AddPGXFile
+      gdxSymbolInfo(PGX, N, SyName.data(), &Dim, &SyITyp);
+      gdxSymbolInfoX(PGX, N, &DummyCount, &SySubTyp, SyText.data());
+      SyTyp = SyITyp == GMS_DT_ALIAS ? dt_set : gdxSyType(SyITyp);
+      const bool Matches{
+          Dim + 1 == SyObj->SyDim && SyTyp == SyObj->SyTyp &&
+          ((SyTyp != dt_var && SyTyp != dt_equ) || SySubTyp == SyObj->SySubTyp)};
+
       IndxI[0] = AddUEL(FileId);
-      gdxDataReadStrStart(PGX, N, &NrRecs);
-      while (gdxDataReadStr(PGX, IndxSPtrs, Vals, &FDim) != 0) {
+      if (Matches) {
+        gdxDataReadStrStart(PGX, N, &NrRecs);
+      }
+      while (Matches && gdxDataReadStr(PGX, IndxSPtrs, Vals, &FDim) != 0) {
         for (D = FDim - 1; D < SyObj->SyDim - 1; D++) {
           IndxI[D + 1] = AddUEL(library::ShortString{IndxSPtrs[D]});
         }
@@ -347,7 +361,9 @@ bool SymbolList::CollectBigOne(const int SyNr) {
         }
         SyObj->SyData->AddRecord(IndxI, Vals);
       }
-      gdxDataReadDone(PGX);
+      if (Matches) {
+        gdxDataReadDone(PGX);
+      }
     }
 
     KeepNewAcronyms(PGX);
-- 
2.43.0


From 9c667e544aa4329e3770e64c5aa01896613c8f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:44 +0000
Subject: [PATCH 37/48] fix: gdxmerge must count files and errors once when BIG
 is used

---
 src/tools/gdxmerge/gdxmerge.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 4d0d1fa..db636bd 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -182,7 +182,9 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
     library::printErrorMessage("\nError reading file, message: " + ErrMsg);
     return;
   }
-  InputFilesRead++;
+  if (Pass != ProcessPass::RpScan) {
+    InputFilesRead++;
+  }
 
   ShareAcronyms(PGX);
 
@@ -193,7 +195,11 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
   for (N = 1; N <= NrSy; N++) {
     gdxSymbolInfo(PGX, N, SyName.data(), &Dim, &SyITyp);
     gdxSymbolInfoX(PGX, N, &DummyCount, &SySubTyp, SyText.data());
-    if (CheckError(Dim < GMS_MAX_INDEX_DIM, "Dimension too large")) {
+    if (Dim >= GMS_MAX_INDEX_DIM) {
+      // Report it once, not in every pass
+      if (Pass != ProcessPass::RpScan) {
+        CheckError(false, "Dimension too large");
+      }
       continue;
     }
 
-- 
2.43.0


From 4a767f7073964eb9c21459984e9811dfc5ec1bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:40 +0000
Subject: [PATCH 38/48] fix: gdxmerge must not index before the keys of a big
 scalar

---
 src/tools/gdxmerge/gdxmerge.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index db636bd..cd8cd60 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -358,8 +358,10 @@ bool SymbolList::CollectBigOne(const int SyNr) {
         gdxDataReadStrStart(PGX, N, &NrRecs);
       }
       while (Matches && gdxDataReadStr(PGX, IndxSPtrs, Vals, &FDim) != 0) {
-        for (D = FDim - 1; D < SyObj->SyDim - 1; D++) {
-          IndxI[D + 1] = AddUEL(library::ShortString{IndxSPtrs[D]});
+        if (Dim > 0) {
+          for (D = FDim - 1; D < Dim; D++) {
+            IndxI[D + 1] = AddUEL(library::ShortString{IndxSPtrs[D]});
+          }
         }
         if (SyObj->SyTyp == dt_set && Vals[GMS_VAL_LEVEL] != 0) {
           gdxGetElemText(PGX, utils::round<int>(Vals[GMS_VAL_LEVEL]), Txt.data(), &INode);
-- 
2.43.0


From 29d20ad1c053a87a1318761725224b59c01b482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:53 +0000
Subject: [PATCH 39/48] fix: command line parsing of the tools must not skip
 non-ASCII characters as blanks

---
 src/tools/library/cmdpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/library/cmdpar.cpp b/src/tools/library/cmdpar.cpp
index 1fcbe50..a2853b0 100644
--- a/src/tools/library/cmdpar.cpp
+++ b/src/tools/library/cmdpar.cpp
@@ -61,7 +61,7 @@ bool CmdParams::AddParameters(const int AInsP, const std::string &CmdLine, const
   int xr, maxr;
 
   auto SkipBl = [&]() {
-    while (xr <= maxr && FParams.at(xr) <= ' ') {
+    while (xr <= maxr && static_cast<unsigned char>(FParams.at(xr)) <= ' ') {
       xr++;
     }
   };
-- 
2.43.0


From 8eb35afb24c31795895be55ae54968ec957d1354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:52 +0000
Subject: [PATCH 40/48] fix: gdxdump must write all acronyms, which are
 numbered from one

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 827d7a6..d7012f3 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -989,7 +989,7 @@ void WriteAcronyms() {
   }
 
   fo << '\n';
-  for (int N{}; N < Cnt; N++) {
+  for (int N{1}; N <= Cnt; N++) {
     gdxAcronymGetInfo(PGX, N, sName.data(), sText.data(), &Indx);
     fo << "Acronym " << sName.data();
     if (!sText.empty()) {
-- 
2.43.0


From 32a91361bb1cea951fc005615dd6d42697bf8b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:52 +0000
Subject: [PATCH 41/48] fix: gdxdump SetText must look at all symbols, which
 are numbered from one

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index d7012f3..90172ea 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -880,7 +880,7 @@ void WriteSetText() {
   // Now find the max textIdx stored for any set element
   mxTextIdx = 0;
   gdxSystemInfo(PGX, &nSyms, &idummy);
-  for (int iSym{}; iSym < nSyms; iSym++) {
+  for (int iSym{1}; iSym <= nSyms; iSym++) {
     gdxSymbolInfo(PGX, iSym, s.data(), &symDim, &symTyp);
     if (static_cast<gdxSyType>(symTyp) != dt_set) {
       continue;
-- 
2.43.0


From a19f2ff6f4e8f7d58a7b179e118e8b12090b4754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:52 +0000
Subject: [PATCH 42/48] fix: gdxdump must make a CSV column name differ from
 the one before it as well

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 90172ea..46fad81 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -582,7 +582,7 @@ void WriteSymbolCSV(const int SyNr) {
       }
       while (true) {
         Done = true;
-        for (int DD{}; DD < D - 1; DD++) {
+        for (int DD{}; DD < D; DD++) {
           if (s == DomSPtrs[DD]) {
             Done = false;
             break;
-- 
2.43.0


From e1e6bb08f2c60dbf5d3f2041c8da76175669d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:52 +0000
Subject: [PATCH 43/48] fix: gdxdump must recognise the type of an equation

---
 src/tools/gdxdump/gdxdump.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 46fad81..bdb1c7b 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -421,6 +421,8 @@ void WriteSymbol(const int SyNr) {
     break;
 
   case dt_equ:
+    // The user info of an equation is its type plus an offset
+    AUser -= GMS_EQU_USERINFO_BASE;
     if (AUser < GMS_EQUTYPE_E || AUser > GMS_EQUTYPE_B) {
       AUser = GMS_EQUTYPE_E;
     }
-- 
2.43.0


From 39bcd2adb8ca378d75ed9ab465a7f4b5f7e31c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:40 +0000
Subject: [PATCH 44/48] fix: honour the decimal separator for values printed in
 E notation

---
 src/gdlib/strutilx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 9807e62..60f57d8 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -314,6 +314,7 @@ static uint8_t DblToStrSepCore(double V, const char DecimalSep, char *s)
          }
          else break;
       }
+      s[j] = DecimalSep;
       for( int i = k - 2; i >= j + 1; i-- )
       {
          if( s[i] == '0' )
-- 
2.43.0


From 9b5569c371d94e557df29350f0b53a131788ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:41 +0000
Subject: [PATCH 45/48] fix: write the begin-of-index mark after the index, so
 that an index written in part is not taken for a complete one

---
 src/gxfile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 1e12e48..4523985 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -623,12 +623,14 @@ int TGXFileObj::gdxClose()
       FFile->WriteString( MARK_DOMS );
 
       // This must be at the very end!!!
-      FFile->SetPosition( MajorIndexPosition );
+      FFile->SetPosition( MajorIndexPosition + static_cast<int64_t>( sizeof( MARK_BOI ) ) );
       FFile->SetCompression( false );
-      FFile->WriteInteger( MARK_BOI );
       // Note that we have room for 10 indices; if we need more, create an overflow link in the 10th position.
       for( const int64_t offset: { SymbPos, UELPos, SetTextPos, AcronymPos, NextWritePosition, DomStrPos } )
          FFile->WriteInt64( offset );
+      // the mark comes last: it says that the index is complete
+      FFile->SetPosition( MajorIndexPosition );
+      FFile->WriteInteger( MARK_BOI );
    }
 
    if( FFile )
-- 
2.43.0


From d979e4984e132e988ce4fc1150da4d6002685439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:02 +0000
Subject: [PATCH 46/48] fix: gdxAcronymSetInfo accepts any index for an
 automatically numbered acronym

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 4523985..6c23923 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3023,7 +3023,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
       if( obj.AcrAutoGen )
       {
          // NOTE: Not covered by unit tests yet.
-         assert( obj.AcrReadMap == AIndx && "gdxAcronymSetInfo" );
+         if( ErrorCondition( AIndx == obj.AcrReadMap, ERR_BADACROINDEX ) ) return false;
          obj.AcrAutoGen = false;
       }
       else if( ErrorCondition( AIndx == obj.AcrMap, ERR_BADACROINDEX ) )
-- 
2.43.0


From 40fc8dd3629ebadabb580de5fe4e0dcc5e8607c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:26 +0000
Subject: [PATCH 47/48] fix: gdxGetLoadPath does not terminate the string it
 returns

---
 generated/gdxcwrap.h            | 2 +-
 src/templates/cwrap.template.j2 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generated/gdxcwrap.h b/generated/gdxcwrap.h
index 7d1973f..b14fa7f 100644
--- a/generated/gdxcwrap.h
+++ b/generated/gdxcwrap.h
@@ -186,7 +186,7 @@ GDX_INLINE void GDX_CALLCONV doSetLoadPath( const char *s )
 GDX_INLINE void GDX_CALLCONV doGetLoadPath( char *s )
 {
    assert( gdx::DLLLoadPath.size() < 256 );
-   memcpy( s, gdx::DLLLoadPath.c_str(), gdx::DLLLoadPath.size() );
+   memcpy( s, gdx::DLLLoadPath.c_str(), gdx::DLLLoadPath.size() + 1 );
 }
 
 #ifndef NO_SET_LOAD_PATH_DEF
diff --git a/src/templates/cwrap.template.j2 b/src/templates/cwrap.template.j2
index 6f53d13..89be195 100644
--- a/src/templates/cwrap.template.j2
+++ b/src/templates/cwrap.template.j2
@@ -103,7 +103,7 @@ GDX_INLINE void GDX_CALLCONV doSetLoadPath( const char *s )
 GDX_INLINE void GDX_CALLCONV doGetLoadPath( char *s )
 {
    assert( gdx::DLLLoadPath.size() < 256 );
-   memcpy( s, gdx::DLLLoadPath.c_str(), gdx::DLLLoadPath.size() );
+   memcpy( s, gdx::DLLLoadPath.c_str(), gdx::DLLLoadPath.size() + 1 );
 }
 
 #ifndef NO_SET_LOAD_PATH_DEF
-- 
2.43.0


From 2329057166e3394282f3b08c4d89bd91f6b71f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:32 +0000
Subject: [PATCH 48/48] fix: messages nobody reads pile up in one stream shared
 by all objects and threads

In a build with NDEBUG every trace message and every complaint about a call
out of context is appended to a global std::stringstream that nobody reads:
its memory grows for as long as the process lives, and two threads using two
different objects write to it at the same time.
---
 src/gdlib/utils.cpp | 4 ----
 src/gdlib/utils.hpp | 7 ++++++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/gdlib/utils.cpp b/src/gdlib/utils.cpp
index d7990de..364389a 100644
--- a/src/gdlib/utils.cpp
+++ b/src/gdlib/utils.cpp
@@ -47,10 +47,6 @@ using namespace std::literals::string_literals;
 // ==============================================================================================================
 // Implementation
 // ==============================================================================================================
-#if defined(NDEBUG) && !defined(__IN_CPPMEX__)
-std::stringstream debugStream;
-#endif
-
 namespace utils
 {
 
diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 0ad6a07..fce34ef 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -58,7 +58,12 @@
 #if !defined(NDEBUG) || defined(__IN_CPPMEX__)
 #define debugStream std::cout
 #else
-extern std::stringstream debugStream;
+// Nobody reads the messages in this configuration: drop them. All objects (and so all threads) share this.
+struct TNullStream {
+   template<typename T>
+   const TNullStream &operator<<( const T & ) const { return *this; }
+};
+inline constexpr TNullStream debugStream {};
 #endif
 
 namespace utils
-- 
2.43.0

