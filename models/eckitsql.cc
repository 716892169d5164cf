// Assumed contracts of eckit, continued: the query engine (eckit::sql), as far as odc uses it. A statement is
//   select <column> [as <title>], ... | *  [from "<file>", ...]  [where <column> <op> <number> | <column> is [not] null  [and ...]] [;]
// Every table given (or, without "from", every implicit one) is gone through row by row, one inside the other; a row that
// satisfies the condition (a missing value satisfies none but "is null") is handed to the output, column by column, with the
// missing status the frame's own missing value gives it. Whenever the iterator says its frame changed, places, widths and
// missing values are taken from it again, and the output is told. (The calls an output sees, and their order, as observed
// of eckit 1.32.)
#include <cstring>
#include <functional>
#include <iostream>
#include "eckit/exception/Exceptions.h"
#include "eckit/sql/SQLColumn.h"
#include "eckit/sql/SQLDatabase.h"
#include "eckit/sql/SQLOutput.h"
#include "eckit/sql/SQLOutputConfig.h"
#include "eckit/sql/SQLParser.h"
#include "eckit/sql/SQLSelect.h"
#include "eckit/sql/SQLSelectFactory.h"
#include "eckit/sql/SQLSession.h"
#include "eckit/sql/SQLSimpleOutput.h"
#include "eckit/sql/SQLStatement.h"
#include "eckit/sql/SQLTable.h"
#include "eckit/sql/SQLTableFactory.h"
#include "eckit/sql/type/SQLBitfield.h"
#include "eckit/sql/type/SQLType.h"

namespace eckit::sql {
// ---- types
namespace type {
SQLType::SQLType(const std::string& n) : name_(n) {}
SQLType::~SQLType() {}
const SQLType* SQLType::subType(const std::string&) const { NOTIMP; }
size_t SQLType::width() const { return 12; }
SQLType::manipulator SQLType::format() const { return &std::left; }
void SQLType::print(std::ostream&) const {}
namespace {
struct MType : SQLType {
  int kind; size_t bytes;
  MType(const std::string& n, int k, size_t b) : SQLType(n), kind(k), bytes(b) {}
  using SQLType::output;
  size_t size() const override { return bytes; }
  int getKind() const override { return kind; }
  std::string asString(const double*) const override { NOTIMP; }
  void output(SQLOutput& o, double d, bool m) const override {
    switch (kind) { case realType: o.outputReal(d, m); break; case doubleType: o.outputDouble(d, m); break; case integerType: o.outputInt(d, m); break; case bitmapType: o.outputBitfield(d, m); break; default: NOTIMP; }
  }
  void output(SQLOutput& o, const double* p, bool m) const override {
    if (kind != stringType) { output(o, *p, m); return; }
    const char* s = reinterpret_cast<const char*>(p); o.outputString(s, ::strnlen(s, bytes), m);
  }
};
std::vector<MType*>* types;
const SQLType& get(const std::string& n, int kind, size_t bytes) {
  if (!types) types = new std::vector<MType*>();
  for (auto t : *types) if (t->kind == kind && t->bytes == bytes && t->name() == n) return *t;
  types->push_back(new MType(n, kind, bytes)); return *types->back();
}
}
const SQLType& SQLType::lookup(const std::string& n, size_t size) {
  if (n == "real") return get(n, realType, 8);
  if (n == "double") return get(n, doubleType, 8);
  if (n == "integer") return get(n, integerType, 8);
  if (n == "string") return get(n, stringType, 8 * size);
  if (n.compare(0, 8, "Bitfield") == 0) return get(n, bitmapType, 8);
  throw eckit::SeriousBug("no such type " + n);
}
std::string SQLBitfield::make(const std::string& s, const FieldNames& f, const Sizes&, const char*) { std::string n = s; for (auto& x : f) n += "_" + x; return n; }
}

// ---- tables and columns
SQLColumn::SQLColumn(const type::SQLType& t, SQLTable& o, const std::string& n, size_t i, bool has, double mv, const BitfieldDef& d) : SQLIterator(t), noRows_(0), owner_(o), name_(n), index_((int)i), current_(0), last_(0), position_(0), iterator_(nullptr), hasMissingValue_(has), missingValue_(mv), isBitfield_(!d.first.empty()), bitfieldDef_(d), sizeDoubles_(t.size() / 8) {}
SQLColumn::~SQLColumn() {}
void SQLColumn::rewind() { NOTIMP; }
double SQLColumn::next(bool&) { NOTIMP; }
void SQLColumn::advance(unsigned long) { NOTIMP; }
void SQLColumn::print(std::ostream&) const {}
SQLTable::SQLTable(SQLDatabase& db, const std::string& path, const std::string& name) : path_(path), name_(name), owner_(db) {}
SQLTable::~SQLTable() {}
void SQLTable::print(std::ostream&) const {}
bool SQLTable::hasColumn(const std::string& n) const { return columnsByName_.find(n) != columnsByName_.end(); }
const SQLColumn& SQLTable::column(const std::string& n) const { auto j = columnsByName_.find(n); if (j == columnsByName_.end()) throw eckit::UserError("column not found " + n); return *j->second; }
SQLColumn* SQLTable::createSQLColumn(const type::SQLType& t, const std::string& n, size_t i, bool has, double mv, const BitfieldDef& d) { return new SQLColumn(t, *this, n, i, has, mv, d); }
void SQLTable::addColumn(SQLColumn* c, const std::string& n, int i) { ownedColumns_.emplace_back(c); columnsByName_[n] = c; columnsByIndex_[i] = c; }
void SQLTable::addColumn(const std::string& n, int i, const type::SQLType& t, bool has, double mv, bool bits, const BitfieldDef& d) { addColumn(createSQLColumn(t, n, (size_t)i, has, mv, d), n, i); }
namespace { std::vector<const SQLTableFactoryBase*>* factories; }
SQLTableFactoryBase::SQLTableFactoryBase() { if (!factories) factories = new std::vector<const SQLTableFactoryBase*>(); factories->push_back(this); }
SQLTableFactoryBase::~SQLTableFactoryBase() {}
SchemaAnalyzer::SchemaAnalyzer() {}
SchemaAnalyzer::~SchemaAnalyzer() {}
TableDef::~TableDef() {}
ColumnDef::~ColumnDef() {}
SQLDatabase::SQLDatabase(const std::string& n) : name_(n) {}
SQLDatabase::~SQLDatabase() {}
void SQLDatabase::addImplicitTable(SQLTable* t) { implicitTables_.emplace_back(t); }
void SQLDatabase::addTable(SQLTable* t) { tablesByName_[t->name()].reset(t); }
std::vector<std::reference_wrapper<SQLTable>> SQLDatabase::implicitTables() { std::vector<std::reference_wrapper<SQLTable>> r; for (auto& t : implicitTables_) r.push_back(*t); return r; }

// ---- outputs
SQLOutput::SQLOutput() {}
SQLOutput::~SQLOutput() {}
void SQLOutput::preprepare(SQLSelect&) {}
bool SQLOutput::cachedNext() { return false; }
void SQLOutput::print(std::ostream&) const {}
const char* SQLOutputConfig::defaultDelimiter = "\t";
const char* SQLOutputConfig::defaultOutputFormat = "default";
SQLOutputConfig::SQLOutputConfig(bool cn, bool nn, const std::string& d, const std::string& f, bool b, bool a, bool p) : doNotWriteColumnNames_(cn), fieldDelimiter_(d), outputFormat_(f), displayBitfieldsBinary_(b), disableAlignmentOfColumns_(a), fullPrecision_(p), doNotWriteNULL_(nn) {}
SQLOutputConfig::~SQLOutputConfig() {}
SQLOutput* SQLOutputConfig::buildOutput() const { return buildOutput(outputFile_); }
SQLOutput* SQLOutputConfig::buildOutput(const eckit::PathName&) const { NOTIMP; }
SQLSimpleOutput::SQLSimpleOutput(const SQLOutputConfig& c, std::ostream& o) : out_(o), count_(0), currentColumn_(0), config_(c) {}
SQLSimpleOutput::~SQLSimpleOutput() {}
void SQLSimpleOutput::print(std::ostream&) const {}
void SQLSimpleOutput::reset() {}
void SQLSimpleOutput::flush() {}
bool SQLSimpleOutput::output(const expression::Expressions&) { NOTIMP; }
void SQLSimpleOutput::prepare(SQLSelect&) {}
void SQLSimpleOutput::updateTypes(SQLSelect&) {}
void SQLSimpleOutput::cleanup(SQLSelect&) {}
unsigned long long SQLSimpleOutput::count() { return count_; }
void SQLSimpleOutput::outputReal(double, bool) {}
void SQLSimpleOutput::outputDouble(double, bool) {}
void SQLSimpleOutput::outputInt(double, bool) {}
void SQLSimpleOutput::outputUnsignedInt(double, bool) {}
void SQLSimpleOutput::outputString(const char*, size_t, bool) {}
void SQLSimpleOutput::outputBitfield(double, bool) {}

// ---- expressions
namespace expression {
SQLExpression::SQLExpression() : isBitfield_(false), hasMissingValue_(false), missingValue_(-2147483647.0) {}
SQLExpression::~SQLExpression() {}
void SQLExpression::eval(double* o, bool& m) const { *o = eval(m); }
std::string SQLExpression::evalAsString(bool&) const { NOTIMP; }
std::shared_ptr<SQLExpression> SQLExpression::simplify(bool&) { return nullptr; }
void SQLExpression::title(const std::string& t) { title_ = t; }
std::string SQLExpression::title() const { return title_; }
void SQLExpression::output(SQLOutput&) const { NOTIMP; }
void SQLExpression::expandStars(const std::vector<std::reference_wrapper<const SQLTable>>&, Expressions&) {}
void Expressions::print(std::ostream&) const {}
const type::SQLType* Expressions::type() const { NOTIMP; }
std::shared_ptr<SQLExpression> Expressions::clone() const { NOTIMP; }
std::shared_ptr<SQLExpression> Expressions::reshift(int) const { NOTIMP; }
Expressions Expressions::reshift_expressions(int) const { NOTIMP; }
OrderByExpressions::~OrderByExpressions() {}
bool OrderByExpressions::operator<(const OrderByExpressions&) const { NOTIMP; }
}
SelectOneTable::~SelectOneTable() {}
SQLStatement::SQLStatement() {}
SQLStatement::~SQLStatement() {}
void SQLStatement::print(std::ostream&) const {}

// ---- the select statement
namespace {
struct Cell { const double* p; size_t size; bool has; double mv; };
struct Cursor { SQLTable* t; std::vector<std::reference_wrapper<const SQLColumn>> fetch; std::vector<Cell> cells; std::unique_ptr<SQLTableIterator> it; };
struct ColExpr : expression::SQLExpression {
  Cursor& cu; size_t k; const type::SQLType* t;
  ColExpr(Cursor& c, size_t i, const std::string& name) : cu(c), k(i), t(&c.fetch[i].get().type()) { title(name); const SQLColumn& col = c.fetch[i]; isBitfield_ = col.isBitfield(); bitfieldDef_ = col.bitfieldDef(); hasMissingValue_ = col.hasMissingValue(); missingValue_ = col.missingValue(); }
  bool missing() const { const Cell& c = cu.cells[k]; if (!c.has) return false; uint64_t a, b; ::memcpy(&a, c.p, 8); ::memcpy(&b, &c.mv, 8); return a == b; }
  void prepare(SQLSelect&) override {}
  void cleanup(SQLSelect&) override {}
  void updateType(SQLSelect&) override { if (t->getKind() == type::SQLType::stringType) t = &type::SQLType::lookup("string", cu.cells[k].size); }
  using SQLExpression::eval;
  double eval(bool& m) const override { m = missing(); return *cu.cells[k].p; }
  bool isConstant() const override { return false; }
  const type::SQLType* type() const override { return t; }
  std::shared_ptr<SQLExpression> clone() const override { NOTIMP; }
  std::shared_ptr<SQLExpression> reshift(int) const override { NOTIMP; }
  void output(SQLOutput& o) const override { t->output(o, cu.cells[k].p, missing()); }
  void print(std::ostream&) const override {}
};
struct Cond { ColExpr* e; int op; double v; };  // 0 is null, 1 is not null, 2 = 3 <> 4 < 5 <= 6 > 7 >=
struct Plan { SQLSelect* s; SQLOutput* out; std::vector<std::unique_ptr<Cursor>> cursors; std::vector<std::shared_ptr<ColExpr>> others; std::vector<Cond> conds; bool started = false; std::vector<bool> open; };
std::vector<Plan*>* plans;
Plan& plan(const SQLSelect* s) { for (auto p : *plans) if (p->s == s) return *p; NOTIMP; }
}
SQLSelect::SQLSelect(const Expressions& c, const std::vector<std::reference_wrapper<const SQLTable>>&, std::shared_ptr<expression::SQLExpression>, SQLOutput& out, std::vector<std::unique_ptr<SQLOutput>>&&) : select_(c), output_(out), count_(0), total_(0), skips_(0), aggregate_(false), mixedAggregatedAndScalar_(false), doOutputCached_(false) {}
SQLSelect::~SQLSelect() { output_.reset(); for (auto& p : *plans) if (p->s == this) { delete p; p = plans->back(); plans->pop_back(); break; } }
Expressions SQLSelect::output() const { return select_; }
void SQLSelect::print(std::ostream&) const {}
std::vector<eckit::PathName> SQLSelect::outputFiles() const { return outputFiles_; }
void SQLSelect::outputFiles(const std::vector<eckit::PathName>& f) { outputFiles_ = f; }
void SQLSelect::refreshCursorMetadata(SQLTable* t, SQLTableIterator& it) {
  for (auto& c : plan(this).cursors) if (c->t == t) {
    std::vector<size_t> off = it.columnOffsets(), size = it.doublesDataSizes(); std::vector<char> has = it.columnsHaveMissing(); std::vector<double> mv = it.missingValues(); const double* d = it.data();
    for (size_t i = 0; i < c->fetch.size(); i++) c->cells[i] = Cell{d + off[i], size[i], has[i] != 0, mv[i]};
  }
  for (auto& e : select_) e->updateType(*this);
  output_.updateTypes(*this);
}
void SQLSelect::prepareExecute() {
  output_.reset(); output_.preprepare(*this); Plan& p = plan(this); p.out = &output_;
  for (auto& c : p.cursors) { c->cells.resize(c->fetch.size()); SQLTable* t = c->t; c->it.reset(t->iterator(c->fetch, [this, t](SQLTableIterator& it) { refreshCursorMetadata(t, it); })); }
  for (auto& c : p.cursors) refreshCursorMetadata(c->t, *c->it);
  output_.prepare(*this); p.open.assign(p.cursors.size(), false);
}
bool SQLSelect::processNextTableRow(size_t i) {  // the tables from the i-th on: their next combination of rows
  Plan& p = plan(this);
  if (i + 1 == p.cursors.size()) return p.cursors[i]->it->next();
  while (true) {
    if (!p.open[i]) { if (!p.cursors[i]->it->next()) return false; p.open[i] = true; }
    if (processNextTableRow(i + 1)) return true;
    p.open[i] = false; p.cursors[i + 1]->it->rewind();
  }
}
bool SQLSelect::processOneRow() {
  Plan& p = plan(this);
  while (processNextTableRow(0)) {
    bool ok = true;
    for (auto& c : p.conds) {
      bool m; double d = c.e->eval(m);
      switch (c.op) { case 0: ok = m; break; case 1: ok = !m; break; case 2: ok = !m && d == c.v; break; case 3: ok = !m && d != c.v; break; case 4: ok = !m && d < c.v; break; case 5: ok = !m && d <= c.v; break; case 6: ok = !m && d > c.v; break; default: ok = !m && d >= c.v; }
      if (!ok) break;
    }
    if (ok && output_.output(select_)) { ++count_; return true; }
  }
  return output_.cachedNext();
}
void SQLSelect::postExecute() { output_.flush(); output_.cleanup(*this); for (auto& c : plan(this).cursors) c->it.reset(); }
unsigned long long SQLSelect::execute() { prepareExecute(); while (processOneRow()) {} postExecute(); return count_; }
unsigned long long SQLSelect::process() { NOTIMP; }

// ---- session and parser
SQLSelectFactory::SQLSelectFactory(SQLSession& s) : session_(s), database_(s.currentDatabase()), maxColumnShift_(0), minColumnShift_(0) {}
SQLSession::SQLSession(std::unique_ptr<SQLOutput> out, std::unique_ptr<SQLOutputConfig> c, const std::string& d) : selectFactory_(*this), lastExecuteResult_(0), config_(std::move(c)), output_(std::move(out)), csvDelimiter_(d) { if (!output_) output_.reset(config_->buildOutput()); }
SQLSession::SQLSession(std::unique_ptr<SQLOutputConfig> c, const std::string& d) : SQLSession(nullptr, std::move(c), d) {}
SQLSession::~SQLSession() { statement_.reset(); }
SQLSelectFactory& SQLSession::selectFactory() { return selectFactory_; }
SQLTable& SQLSession::findTable(const std::string& n) {
  if (database_.hasTable(n)) return database_.table(n);
  for (auto f : *factories) if (SQLTable* t = f->build(database_, n, n)) { database_.addTable(t); return *t; }
  throw eckit::UserError("No SQL table could be built for " + n);
}
bool SQLDatabase::hasTable(const std::string& n) const { return tablesByName_.find(n) != tablesByName_.end(); }
SQLTable& SQLDatabase::table(const std::string& n) { return *tablesByName_.find(n)->second; }
void SQLSession::setStatement(SQLStatement* s) { statement_.reset(s); }
SQLStatement& SQLSession::statement() { ASSERT(statement_); return *statement_; }
SQLOutput& SQLSession::output() { ASSERT(output_); return *output_; }
const SQLDatabase& SQLSession::currentDatabase() const { return database_; }
SQLDatabase& SQLSession::currentDatabase() { return database_; }
unsigned long long SQLSession::execute(SQLStatement& s) { return lastExecuteResult_ = s.execute(); }
namespace {
std::vector<std::string> tokens(const std::string& s) {
  std::vector<std::string> r; size_t i = 0;
  while (i < s.size()) {
    char c = s[i];
    if (c == ' ' || c == '\n' || c == '\t') { i++; continue; }
    if (c == '"') { size_t j = s.find('"', i + 1); if (j == std::string::npos) throw SyntaxError("syntax"); r.push_back(s.substr(i, j - i)); i = j + 1; continue; }
    if (c == ',' || c == '*' || c == ';') { r.push_back(std::string(1, c)); i++; continue; }
    if (c == '<' || c == '>' || c == '=') { size_t j = i + 1; if (j < s.size() && (s[j] == '=' || s[j] == '>')) j++; r.push_back(s.substr(i, j - i)); i = j; continue; }
    size_t j = i; while (j < s.size() && !::strchr(" \n\t,*;<>=\"", s[j])) j++;
    r.push_back(s.substr(i, j - i)); i = j;
  }
  return r;
}
ColExpr* resolve(Plan& p, std::vector<std::reference_wrapper<SQLTable>>& ts, const std::string& n) {
  SQLTable* t = nullptr; for (SQLTable& x : ts) if (x.hasColumn(n)) { if (t) throw eckit::UserError("ambiguous " + n); t = &x; }
  if (!t) throw eckit::UserError("Can't find a table for : " + n);
  const SQLColumn& col = t->column(n); Cursor* cu = nullptr; for (auto& c : p.cursors) if (c->t == t) cu = c.get();
  size_t k = 0; while (k < cu->fetch.size() && &cu->fetch[k].get() != &col) k++;
  if (k == cu->fetch.size()) cu->fetch.push_back(col);
  return new ColExpr(*cu, k, col.name());
}
double number(const std::string& s) { bool neg = s[0] == '-'; double d = 0, f = 1; bool dot = false; for (size_t i = neg; i < s.size(); i++) { if (s[i] == '.') { dot = true; continue; } if (s[i] < '0' || s[i] > '9') throw SyntaxError("syntax"); d = d * 10 + (s[i] - '0'); if (dot) f *= 10; } d /= f; return neg ? -d : d; }
}
void SQLParser::parseString(SQLSession& s, const std::string& sql) {
  std::vector<std::string> t = tokens(sql); size_t i = 0; auto at = [&](const char* w) { return i < t.size() && t[i] == w; }; auto need = [&](bool b) { if (!b) throw SyntaxError("syntax"); };
  need(at("select")); i++;
  std::vector<std::pair<std::string, std::string>> cols; bool star = false;
  if (at("*")) { star = true; i++; }
  else while (true) { need(i < t.size()); std::string c = t[i++], as; if (at("as")) { i++; need(i < t.size()); as = t[i++]; } cols.emplace_back(c, as); if (!at(",")) break; i++; }
  std::vector<std::reference_wrapper<SQLTable>> ts;
  if (at("from")) { do { i++; need(i < t.size()); ts.push_back(s.findTable(t[i][0] == '"' ? t[i].substr(1) : t[i])); i++; } while (at(",")); }
  else ts = s.currentDatabase().implicitTables();
  auto p = std::unique_ptr<Plan>(new Plan); for (SQLTable& x : ts) { p->cursors.emplace_back(new Cursor); p->cursors.back()->t = &x; }
  Expressions ex;
  if (star) { for (SQLTable& x : ts) for (auto& c : x.columnNames()) ex.push_back(std::shared_ptr<SQLExpression>(resolve(*p, ts, c))); }
  else for (auto& c : cols) { std::shared_ptr<SQLExpression> e(resolve(*p, ts, c.first)); if (!c.second.empty()) e->title(c.second); ex.push_back(e); }
  if (at("where")) do {
    i++; need(i + 2 < t.size() + 0); std::shared_ptr<ColExpr> e(resolve(*p, ts, t[i++])); p->others.push_back(e); int op = -1; double v = 0;
    if (at("is")) { i++; op = 0; if (at("not")) { op = 1; i++; } need(at("null")); i++; }
    else { static const char* O[] = {"=", "<>", "<", "<=", ">", ">="}; for (int k = 0; k < 6; k++) if (t[i] == O[k]) op = 2 + k; need(op > 0); i++; need(i < t.size()); v = number(t[i++]); }
    p->conds.push_back(Cond{e.get(), op, v});
  } while (at("and"));
  if (at(";")) i++;
  need(i == t.size());
  SQLSelect* sel = new SQLSelect(ex, {}, nullptr, s.output()); p->s = sel; if (!plans) plans = new std::vector<Plan*>(); plans->push_back(p.release()); s.setStatement(sel);
}
ColumnNames SQLTable::columnNames() const { ColumnNames r; for (auto& c : columnsByIndex_) r.push_back(c.second->name()); return r; }
}
