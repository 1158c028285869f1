// Reference model: what the PO rules, the cache rules and the lookup rules say. Written independently of /repo's
// sources, shares no code with them, and knows nothing about their structure.
#pragma once
#include "core.hpp"

namespace model {

using sim::Str;
using sim::Strs;

struct Key
{
  bool has_ctxt = false;
  Str ctxt, id;
  bool operator<(const Key& o) const
  {
    if (has_ctxt != o.has_ctxt) return has_ctxt < o.has_ctxt;
    if (ctxt != o.ctxt) return ctxt < o.ctxt;
    return id < o.id;
  }
  bool operator==(const Key& o) const { return has_ctxt == o.has_ctxt && ctxt == o.ctxt && id == o.id; }
};
Str show(const Key& k);

typedef std::map<Key, Strs> Content;

// ---- plural rules -------------------------------------------------------
struct PluralRule { const char* header; unsigned n; const char* expr; };
extern const PluralRule plural_rules[];
extern const int n_plural_rules;
int find_rule(const Str& header_line);           // index, or -1
unsigned eval_rule(int rule, int n);             // rule -1: always 0

// ---- charset conversion -------------------------------------------------
Str upper(const Str& s);
bool convertible(const Str& from, const Str& to);
extern bool deny_conversions;                    // no conversion can be set up at present (injected fault)
struct Conv { bool valid; Str out, out_flushed; }; // for invalid text: conversion of its valid beginning
Conv convert(const Str& from, const Str& to, const Str& text);

// ---- dictionary ---------------------------------------------------------
struct Dict
{
  Content own;
  int rule = -1;
  Str charset = "UTF-8";
  const Dict* fallback = nullptr;

  void add_single(const Key& k, const Str& v);
  void add_plural(const Key& k, const Strs& v);
  bool has(const Key& k) const;
  Strs lookup(const Key& k) const;
  // allowed answers (first is the expected one; a second only where the rules leave it open)
  Strs lookup_plural(const Key& k, const Str& id_plural, int n) const;
};

// ---- catalogue ----------------------------------------------------------
struct ParseResult
{
  bool read_error = false;    // input ended in a read error that the loader had to notice
  bool bad_charset = false;   // header names a charset that cannot be converted
  int errors = 0;             // malformed places
  int warnings = 0;
  std::vector<std::pair<Key, Strs> > versions; // messages added, in order, as they were right after
};

// Loads bytes into d as the PO rules say; error_at_end: reading fails after the last byte.
ParseResult load(const Str& bytes, bool error_at_end, bool use_fuzzy, Dict& d);

// ---- languages ----------------------------------------------------------
struct Lang
{
  Str lang, country, modifier;
  bool operator==(const Lang& o) const { return lang == o.lang && country == o.country && modifier == o.modifier; }
  bool operator<(const Lang& o) const { return str() < o.str(); }
  Str str() const;
  bool defined() const { return !lang.empty(); }
};
const std::vector<Lang>& all_langs();            // every language there is
const std::vector<std::pair<Str, Str> >& all_names(); // language names and what they stand for
Lang lang_of(const Str& spec);                   // one of all_langs(), or undefined
Lang lang_of_env(const Str& env);                // "de_AT.UTF-8@x" -> the nearest language, or undefined
Lang lang_of_file(const Str& filename);          // "de_AT.po" -> de_AT; not a catalogue/unknown -> undefined
bool is_catalogue(const Str& filename);
int score(const Lang& a, const Lang& b);

} // namespace model
