// Model of the ANTLR 2.7.7 C++ runtime library (a binary here): the non-inline members the parser uses.
#include <antlr/config.hpp>
#include <antlr/CharScanner.hpp>
#include <antlr/LLkParser.hpp>
#include <antlr/TokenBuffer.hpp>
#include <antlr/CommonToken.hpp>
#include <antlr/CharBuffer.hpp>
#include <antlr/TokenStreamSelector.hpp>
#include <antlr/TokenStreamRetryException.hpp>
#include <antlr/MismatchedTokenException.hpp>
#include <antlr/NoViableAltException.hpp>
#include <antlr/NoViableAltForCharException.hpp>
#include <antlr/SemanticException.hpp>
#include <antlr/AST.hpp>

namespace antlr {
bool DEBUG_PARSER = false;
RefToken nullToken = RefToken();

// BitSet
BitSet::BitSet(unsigned int nbits) : storage(nbits) { for (unsigned i = 0; i < nbits; ++i) storage[i] = false; }
BitSet::BitSet(const unsigned long *b, unsigned int n) : storage(n * 32) { for (unsigned i = 0; i < n * 32; ++i) storage[i] = (b[i >> 5] & (1UL << (i & 31))) ? true : false; }
BitSet::~BitSet() {}
void BitSet::add(unsigned int el) { if (el >= storage.size()) storage.resize(el + 1, false); storage[el] = true; }
bool BitSet::member(unsigned int el) const { if (el >= storage.size()) return false; return storage[el]; }

// reference counting
TokenRef::TokenRef(Token *p) : ptr(p), count(1) { if (p && !p->ref) p->ref = this; }
TokenRef::~TokenRef() { delete ptr; }
TokenRef *TokenRef::getRef(const Token *p) { if (p) { Token *q = const_cast<Token *>(p); if (q->ref) return q->ref->increment(); return new TokenRef(q); } return 0; }
ASTRef::ASTRef(AST *p) : ptr(p), count(1) {}
ASTRef::~ASTRef() {}
ASTRef *ASTRef::getRef(const AST *p) { return p ? new ASTRef(const_cast<AST *>(p)) : 0; }

// Token
int Token::getColumn() const { return 0; }
int Token::getLine() const { return 0; }
std::string Token::getText() const { return ""; }
int Token::getType() const { return type; }
void Token::setColumn(int) {}
void Token::setLine(int) {}
void Token::setText(const std::string &) {}
void Token::setType(int t) { type = t; }
void Token::setFilename(const std::string &) {}
static std::string emptyName;
const std::string &Token::getFilename() const { return emptyName; }
std::string Token::toString() const { return "[\"" + getText() + "\"]"; }
CommonToken::CommonToken() : Token(), line(1), col(1), text("") {}
CommonToken::CommonToken(int t, const std::string &s) : Token(t), line(1), col(1), text(s) {}
CommonToken::CommonToken(const std::string &s) : Token(), line(1), col(1), text(s) {}
std::string CommonToken::toString() const { return "[\"" + text + "\"]"; }
RefToken CommonToken::factory() { return RefToken(new CommonToken); }

// exceptions
RecognitionException::RecognitionException() : ANTLRException("parsing error"), line(-1), column(-1) {}
RecognitionException::RecognitionException(const std::string &s) : ANTLRException(s), line(-1), column(-1) {}
RecognitionException::RecognitionException(const std::string &s, const std::string &f, int l, int c) : ANTLRException(s), fileName(f), line(l), column(c) {}
std::string RecognitionException::toString() const { return getFileLineColumnString() + getMessage(); }
std::string RecognitionException::getFileLineColumnString() const { return fileName; }
MismatchedCharException::MismatchedCharException() : RecognitionException("Mismatched char") {}
MismatchedCharException::MismatchedCharException(int c, int lo, int up, bool n, CharScanner *s) : RecognitionException("Mismatched char", s->getFilename(), s->getLine(), s->getColumn()), mismatchType(n ? NOT_RANGE : RANGE), foundChar(c), expecting(lo), upper(up), scanner(s) {}
MismatchedCharException::MismatchedCharException(int c, int e, bool n, CharScanner *s) : RecognitionException("Mismatched char", s->getFilename(), s->getLine(), s->getColumn()), mismatchType(n ? NOT_CHAR : CHAR), foundChar(c), expecting(e), scanner(s) {}
MismatchedCharException::MismatchedCharException(int c, BitSet b, bool n, CharScanner *s) : RecognitionException("Mismatched char", s->getFilename(), s->getLine(), s->getColumn()), mismatchType(n ? NOT_SET : SET), foundChar(c), set(b), scanner(s) {}
std::string MismatchedCharException::getMessage() const { return "Mismatched char"; }
MismatchedTokenException::MismatchedTokenException() : RecognitionException("Mismatched Token: expecting any AST node"), token(0), node(0), tokenNames(0), numTokens(0) {}
MismatchedTokenException::MismatchedTokenException(const char *const *names, const int num, RefToken t, int e, bool n, const std::string &f) : RecognitionException("Mismatched Token", f, t->getLine(), t->getColumn()), token(t), node(0), tokenText(t->getText()), mismatchType(n ? NOT_TOKEN : TOKEN), expecting(e), tokenNames(names), numTokens(num) {}
MismatchedTokenException::MismatchedTokenException(const char *const *names, const int num, RefToken t, BitSet b, bool n, const std::string &f) : RecognitionException("Mismatched Token", f, t->getLine(), t->getColumn()), token(t), node(0), tokenText(t->getText()), mismatchType(n ? NOT_SET : SET), set(b), tokenNames(names), numTokens(num) {}
std::string MismatchedTokenException::getMessage() const { return "Mismatched token"; }
NoViableAltException::NoViableAltException(RefToken t, const std::string &f) : RecognitionException("NoViableAlt", f, t->getLine(), t->getColumn()), token(t), node(0) {}
std::string NoViableAltException::getMessage() const { return "unexpected token"; }
NoViableAltForCharException::NoViableAltForCharException(int c, CharScanner *s) : RecognitionException("NoViableAlt", s->getFilename(), s->getLine(), s->getColumn()), foundChar(c) {}
NoViableAltForCharException::NoViableAltForCharException(int c, const std::string &f, int l, int col) : RecognitionException("NoViableAlt", f, l, col), foundChar(c) {}
std::string NoViableAltForCharException::getMessage() const { return "unexpected char"; }

// InputBuffer / CharBuffer
void InputBuffer::fill(unsigned int amount) { syncConsume(); while (queue.entries() < amount + markerOffset) queue.append(getChar()); }
unsigned int InputBuffer::mark() { syncConsume(); nMarkers++; return markerOffset; }
void InputBuffer::rewind(unsigned int m) { syncConsume(); markerOffset = m; nMarkers--; }
unsigned int InputBuffer::entries() const { return (unsigned)queue.entries() - markerOffset; }
CharBuffer::CharBuffer(std::istream &in) : input(in) {}
int CharBuffer::getChar() { return -1; }

// TokenBuffer
TokenBuffer::TokenBuffer(TokenStream &in) : input(in), nMarkers(0), markerOffset(0), numToConsume(0) {}
TokenBuffer::~TokenBuffer() {}
void TokenBuffer::fill(unsigned int amount) { syncConsume(); while (queue.entries() < amount + markerOffset) queue.append(input.nextToken()); }
int TokenBuffer::LA(unsigned int i) { fill(i); return queue.elementAt(markerOffset + i - 1)->getType(); }
RefToken TokenBuffer::LT(unsigned int i) { fill(i); return queue.elementAt(markerOffset + i - 1); }
unsigned int TokenBuffer::mark() { syncConsume(); nMarkers++; return markerOffset; }
void TokenBuffer::rewind(unsigned int m) { syncConsume(); markerOffset = m; nMarkers--; }
unsigned int TokenBuffer::entries() const { return (unsigned)queue.entries() - markerOffset; }

// CharScanner
CharScanner::CharScanner(InputBuffer &cb, bool cs) : saveConsumedInput(true), caseSensitive(cs), literals(CharScannerLiteralsLess(this)), inputState(new LexerInputState(cb)), commitToPath(false), tabsize(8), traceDepth(0) { setTokenObjectFactory(&CommonToken::factory); }
CharScanner::CharScanner(InputBuffer *cb, bool cs) : saveConsumedInput(true), caseSensitive(cs), literals(CharScannerLiteralsLess(this)), inputState(new LexerInputState(cb)), commitToPath(false), tabsize(8), traceDepth(0) { setTokenObjectFactory(&CommonToken::factory); }
CharScanner::CharScanner(const LexerSharedInputState &st, bool cs) : saveConsumedInput(true), caseSensitive(cs), literals(CharScannerLiteralsLess(this)), inputState(st), commitToPath(false), tabsize(8), traceDepth(0) { setTokenObjectFactory(&CommonToken::factory); }
void CharScanner::reportError(const RecognitionException &) {}
void CharScanner::reportError(const std::string &) {}
void CharScanner::reportWarning(const std::string &) {}
void CharScanner::traceIndent() {}
void CharScanner::traceIn(const char *) {}
void CharScanner::traceOut(const char *) {}
#ifndef NO_STATIC_CONSTS
const int CharScanner::EOF_CHAR;
const int CharScanner::NO_CHAR;
#endif

// parsers
LLkParser::LLkParser(const ParserSharedInputState &s, int k_) : Parser(s), k(k_) {}
LLkParser::LLkParser(TokenBuffer &b, int k_) : Parser(b), k(k_) {}
LLkParser::LLkParser(TokenStream &s, int k_) : Parser(new TokenBuffer(s)), k(k_) {}
void LLkParser::trace(const char *, const char *) {}
void LLkParser::traceIn(const char *) {}
void LLkParser::traceOut(const char *) {}
void Parser::reportError(const RecognitionException &) {}
void Parser::reportError(const std::string &) {}
void Parser::reportWarning(const std::string &) {}
void Parser::traceIndent() {}
void Parser::traceIn(const char *) {}
void Parser::traceOut(const char *) {}

// TokenStreamSelector
TokenStreamSelector::TokenStreamSelector() : input(0) {}
TokenStreamSelector::~TokenStreamSelector() {}
void TokenStreamSelector::addInputStream(TokenStream *s, const std::string &k) { inputStreamNames[k] = s; }
TokenStream *TokenStreamSelector::getCurrentStream() const { return input; }
TokenStream *TokenStreamSelector::getStream(const std::string &n) const { inputStreamNames_coll::const_iterator i = inputStreamNames.find(n); if (i == inputStreamNames.end()) throw std::string("TokenStream ") + n + " not found"; return i->second; }
RefToken TokenStreamSelector::nextToken() { for (;;) { try { return input->nextToken(); } catch (TokenStreamRetryException &) {} } }
TokenStream *TokenStreamSelector::pop() { TokenStream *s = streamStack.top(); streamStack.pop(); select(s); return s; }
void TokenStreamSelector::push(TokenStream *s) { streamStack.push(input); select(s); }
void TokenStreamSelector::push(const std::string &n) { streamStack.push(input); select(n); }
void TokenStreamSelector::retry() { throw TokenStreamRetryException(); }
void TokenStreamSelector::select(TokenStream *s) { input = s; }
void TokenStreamSelector::select(const std::string &n) { input = getStream(n); }
}
