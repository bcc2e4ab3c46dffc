// Minimal JSON for the conformance driver. Strings are byte strings: U+00XX <-> byte XX.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <stdexcept>

struct J
{
   enum K { Nul, Int, Str, Arr, Obj, Bool } k { Nul };
   long long i {};
   std::string s;
   std::vector<J> a;
   std::vector<std::pair<std::string, J>> o;
   J() = default;
   J( long long v ) : k { Int }, i { v } {}
   J( int v ) : k { Int }, i { v } {}
   J( const std::string &v ) : k { Str }, s { v } {}
   J( const char *v ) : k { Str }, s { v } {}
   static J arr() { J j; j.k = Arr; return j; }
   static J obj() { J j; j.k = Obj; return j; }
   J &set( const char *n, J v ) { o.emplace_back( n, std::move( v ) ); return *this; }
   void push( J v ) { a.push_back( std::move( v ) ); }
   const J *get( const char *n ) const
   {
      for( auto &p: o ) if( p.first == n ) return &p.second;
      return nullptr;
   }
   const J &at( const char *n ) const
   {
      auto p = get( n );
      if( !p ) throw std::runtime_error( std::string( "missing " ) + n );
      return *p;
   }
   const J &operator[]( size_t n ) const
   {
      if( n >= a.size() ) throw std::runtime_error( "argument missing" );
      return a[n];
   }
   int in() const { return (int) i; }
   void dump( std::string &out ) const
   {
      switch( k )
      {
         case Nul: out += "null"; break;
         case Bool: out += i ? "true" : "false"; break;
         case Int: out += std::to_string( i ); break;
         case Str:
            out += '"';
            for( unsigned char c: s )
               if( c == '"' || c == '\\' ) { out += '\\'; out += (char) c; }
               else if( c < 32 || c > 126 ) { char b[8]; snprintf( b, 8, "\\u%04x", c ); out += b; }
               else out += (char) c;
            out += '"';
            break;
         case Arr:
            out += '[';
            for( size_t n = 0; n < a.size(); n++ ) { if( n ) out += ','; a[n].dump( out ); }
            out += ']';
            break;
         case Obj:
            out += '{';
            for( size_t n = 0; n < o.size(); n++ ) { if( n ) out += ','; out += '"' + o[n].first + "\":"; o[n].second.dump( out ); }
            out += '}';
            break;
      }
   }
};

struct JParser
{
   const char *p, *e;
   void ws() { while( p < e && ( *p == ' ' || *p == '\n' || *p == '\t' || *p == '\r' ) ) p++; }
   [[noreturn]] void bad() { throw std::runtime_error( "bad json" ); }
   J parse()
   {
      ws();
      if( p >= e ) bad();
      if( *p == '{' )
      {
         J j = J::obj(); p++; ws();
         if( *p == '}' ) { p++; return j; }
         for( ;; )
         {
            ws(); J n = parse(); ws();
            if( *p++ != ':' ) bad();
            j.o.emplace_back( n.s, parse() );
            ws();
            if( *p == ',' ) { p++; continue; }
            if( *p == '}' ) { p++; return j; }
            bad();
         }
      }
      if( *p == '[' )
      {
         J j = J::arr(); p++; ws();
         if( *p == ']' ) { p++; return j; }
         for( ;; )
         {
            j.a.push_back( parse() ); ws();
            if( *p == ',' ) { p++; continue; }
            if( *p == ']' ) { p++; return j; }
            bad();
         }
      }
      if( *p == '"' )
      {
         J j; j.k = J::Str; p++;
         while( p < e && *p != '"' )
         {
            unsigned char c = *p++;
            if( c == '\\' )
            {
               c = *p++;
               if( c == 'u' ) { char b[5] { p[0], p[1], p[2], p[3], 0 }; p += 4; j.s += (char) strtol( b, nullptr, 16 ); }
               else if( c == 'n' ) j.s += '\n';
               else if( c == 't' ) j.s += '\t';
               else if( c == 'r' ) j.s += '\r';
               else if( c == 'b' ) j.s += '\b';
               else if( c == 'f' ) j.s += '\f';
               else j.s += (char) c;
            }
            else if( c >= 0xC2 && c <= 0xC3 ) { unsigned char d = *p++; j.s += (char) ( ( ( c & 3 ) << 6 ) | ( d & 63 ) ); }
            else j.s += (char) c;
         }
         p++;
         return j;
      }
      if( *p == '-' || ( *p >= '0' && *p <= '9' ) )
      {
         char *q; long long v = strtoll( p, &q, 10 ); p = q; return J { v };
      }
      if( !strncmp( p, "true", 4 ) || !strncmp( p, "false", 5 ) ) { J j; j.k = J::Bool; j.i = *p == 't'; p += j.i ? 4 : 5; return j; }
      if( !strncmp( p, "null", 4 ) ) { p += 4; return {}; }
      bad();
   }
};
