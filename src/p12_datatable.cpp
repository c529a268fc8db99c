// P12: data tables behave like a typed rows-and-columns model.
#include "pbt.h"
#include "DataTable.h"
#include <sstream>
#include <memory>
using namespace pbt;
using std::string;
using std::vector;

pbt::Info pbt::info = {"P12",
	"Histories of 1-60 operations (add column/row, typed and string writes, variadic rows, header fields, reads by index, row "
	"iterators with arithmetic, const access, copies, printing, misuse) over up to 8 columns of the three types. "
	"Non-trivial: the history has a column added after rows exist, or a read of a cell written by another access path.",
	"Rows are only addressed through iterators at positions inside the table; reading an iterator at end() is not exercised."};

namespace
{
struct Cell
{
	char t = 'd';
	double d = 0;
	int i = 0;
	string s;
	string str() const
	{
		return t == 'd' ? std::to_string(d) : t == 'i' ? std::to_string(i) : s;
	}
};
struct Model
{
	vector<string> cols, hcols;
	std::map<string, vector<Cell> > data;
	std::map<string, char> type;
	std::map<string, Cell> head;
	size_t rows = 0;
};
double num(Gen& g)
{
	switch(g.raw(4))
	{
	case 0:
		return g.i(-3, 3);
	case 1:
		return g.slogu(1e-300, 1e300);
	default:
		return g.sym(1000);
	}
}
int integer(Gen& g)
{
	return g.chance(1, 6) ? (g.b() ? INT32_MAX : INT32_MIN) : g.i(-100, 100);
}
string text(Gen& g)
{
	return g.str("ab c,\"*", 0, 5);
}
// run f, returning the class of the exception thrown
template<class F> string thrown(F f)
{
	try
	{
		f();
	}
	catch(WrongTypeException&)
	{
		return "WrongType";
	}
	catch(BadFormatException&)
	{
		return "BadFormat";
	}
	catch(std::invalid_argument&)
	{
		return "invalid_argument";
	}
	catch(std::out_of_range&)
	{
		return "out_of_range";
	}
	return "nothing";
}
void compare(Ctx& c, const Model& m, DataTable& t, const string& when)
{
	const DataTable& ct = t;
	c.eq(t.Length(), m.rows, "Length " + when);
	c.check(t.ColumnNames() == m.cols, "column names differ " + when);
	c.check(t.HeaderNames() == m.hcols, "header names differ " + when);
	for(auto& n : m.cols)
	{
		char ty = m.type.at(n);
		c.eq(t.GetColumnType(n), ty, "type of column " + n + " " + when);
		c.check(ct.HasCol(n) && ct.HasCol(n, ty), "HasCol " + n + " " + when);
		for(char o : string("dis"))
			c.eq(ct.HasCol(n, o), o == ty, "HasCol with type " + when);
		for(size_t r = 0; r < m.rows; ++r)
		{
			const Cell& x = m.data.at(n)[r];
			if(ty == 'd')
				c.same(t.Get_d(n, r), x.d, "cell " + n + " " + when);
			else if(ty == 'i')
				c.eq(t.Get_i(n, r), x.i, "cell " + n + " " + when);
			else
				c.eq(t.Get_s(n, r), x.s, "cell " + n + " " + when);
			c.eq(t.GetAsStr(n, r), x.str(), "cell as string " + n + " " + when);
		}
	}
	for(auto& n : m.hcols)
	{
		const Cell& x = m.head.at(n);
		c.eq(t.GetHeaderType(n), x.t, "header type " + when);
		c.check(ct.HeaderHasKey(n) && ct.HeaderHasKey(n, x.t), "HeaderHasKey " + when);
		for(char o : string("dis"))
			c.eq(ct.HeaderHasKey(n, o), o == x.t, "HeaderHasKey with type " + when);
		if(x.t == 'd')
			c.same(ct.HeaderGet_d(n), x.d, "header " + n + " " + when);
		else if(x.t == 'i')
			c.eq(ct.HeaderGet_i(n), x.i, "header " + n + " " + when);
		else
			c.eq(ct.HeaderGet_s(n), x.s, "header " + n + " " + when);
		c.eq(ct.HeaderGetAsStr(n), x.str(), "header as string " + n + " " + when);
	}
	size_t r = 0;
	for(const auto& row : ct)
	{
		c.check(r < m.rows, "const iteration yields too many rows " + when);
		for(auto& n : m.cols)
			c.eq(row.GetAsStr(n), m.data.at(n)[r].str(), "cell by const iteration " + when);
		++r;
	}
	c.eq(r, m.rows, "rows by const iteration " + when);
	r = 0;
	for(auto& row : t)
	{
		c.check(r < m.rows, "iteration yields too many rows " + when);
		c.eq(row.get_pos(), r, "position by iteration " + when);
		for(auto& n : m.cols)
			c.eq(row.GetAsStr(n), m.data.at(n)[r].str(), "cell by iteration " + when);
		++r;
	}
	c.eq(r, m.rows, "rows by iteration " + when);
}
string ascii(const Model& m)
{
	std::ostringstream o;
	for(auto& n : m.hcols)
		o << n << "\t" << m.head.at(n).str() << "\n";
	for(auto& n : m.cols)
		o << n << "\t";
	o << "\n";
	for(size_t r = 0; r < m.rows; ++r)
	{
		for(auto& n : m.cols)
			o << m.data.at(n)[r].str() << "\t";
		o << "\n";
	}
	return o.str();
}
Cell value(Gen& g, char t)
{
	Cell x;
	x.t = t;
	if(t == 'd')
		x.d = num(g);
	else if(t == 'i')
		x.i = integer(g);
	else
		x.s = text(g);
	return x;
}
string lit(const Cell& x)
{
	std::ostringstream o;
	o.precision(17);
	if(x.t == 'd')
		o << x.d;
	else if(x.t == 'i')
		o << x.i;
	else
		o << x.s;
	return o.str();
}
// a random iterator walk that must end at row r
template<class It> It walk(Gen& g, Ctx& c, It b, It e, size_t rows, size_t r)
{
	It it = g.b() ? b : e;
	std::ptrdiff_t pos = it == b ? 0 : (std::ptrdiff_t) rows;
	for(int k = g.i(0, 4); k > 0; --k)
	{
		std::ptrdiff_t to = g.raw(rows), d = to - pos;
		It old = it;
		switch(g.raw(5))
		{
		case 0:
			it += d;
			break;
		case 1:
			it -= -d;
			break;
		case 2:
			it = it + d;
			break;
		case 3:
			it = d + it;
			break;
		case 4:
			it = it - (-d);
			break;
		default:
			if(pos < (std::ptrdiff_t) rows && g.b())
			{
				to = pos + 1;
				It a = it;
				It p = g.b() ? it++ : ++it;
				c.check(p == a || p == it, "increment returns neither the old nor the new position");
				c.check(it - a == 1, "increment does not move one row");
			}
			else if(pos > 0)
			{
				to = pos - 1;
				It a = it;
				It p = g.b() ? it-- : --it;
				c.check(p == a || p == it, "decrement returns neither the old nor the new position");
				c.check(a - it == 1, "decrement does not move one row");
			}
			else
				to = pos;
		}
		c.eq(it - old, to - pos, "iterator difference");
		c.eq(it > old, to > pos, "iterator >");
		c.eq(it < old, to < pos, "iterator <");
		c.eq(it >= old, to >= pos, "iterator >=");
		c.eq(it <= old, to <= pos, "iterator <=");
		c.eq(it == old, to == pos, "iterator ==");
		c.eq(it != old, to != pos, "iterator !=");
		pos = to;
	}
	It res = it + ((std::ptrdiff_t) r - pos);
	c.eq(res._pos(), r, "iterator position");
	return res;
}
}

LAW(history, 12000, 300000, "After any history of operations a table reads back exactly like the model, by every access path")
{
	std::unique_ptr<DataTable> t(new DataTable);
	Model m;
	int n = g.len(1, 60);
	auto anycol = [&]() -> string {
			if(m.cols.empty() || g.chance(1, 12))
				return g.pick<string>({"nope", "", "A "});
			return m.cols[g.raw(m.cols.size() - 1)];
		};
	auto anyhead = [&]() -> string {
			if(m.hcols.empty() || g.chance(1, 12))
				return g.pick<string>({"nope", ""});
			return m.hcols[g.raw(m.hcols.size() - 1)];
		};
	for(int k = 0; k < n; ++k)
	{
		int op = g.raw(13);
		std::ostringstream w;
		w << "after step " << k << " (op " << op << ")";
		c.desc << op << " ";
		switch(op)
		{
		case 0:
		case 1:
		{
			string nm = g.pick<string>({"A", "B", "S", "NAME", "L", "K1", "X Y", "long_column_name"});
			char ty = g.chance(1, 12) ? g.pick({'f', 'D', ' ', '\0'}) : g.pick({'d', 'i', 's'});
			string th = thrown([&]() {
					t->AddColumn(nm, ty);
				});
			if(m.data.count(nm))
			{
				c.eq(th, string("invalid_argument"), "adding an existing column throws");
				c.label("dup_column");
			}
			else if(!strchr("dis", ty) || !ty)
			{
				c.eq(th, string("WrongType"), "adding a column of unknown type throws");
				c.label("bad_type");
			}
			else
			{
				c.eq(th, string("nothing"), "adding a column throws");
				c.label(m.rows > 0, "column_after_rows");
				c.nontrivial(m.rows > 0);
				m.cols.push_back(nm);
				m.type[nm] = ty;
				Cell x;
				x.t = ty;
				m.data[nm].assign(m.rows, x);
			}
			break;
		}
		case 2:
		case 3:
		{
			c.eq(t->AddRow(), m.rows, "index returned by AddRow");
			for(auto& nm : m.cols)
			{
				Cell x;
				x.t = m.type[nm];
				m.data[nm].push_back(x);
			}
			m.rows++;
			break;
		}
		case 4:      // typed writes by index
		case 5:
		{
			string nm = anycol();
			size_t r = m.rows && !g.chance(1, 12) ? g.raw(m.rows - 1) : m.rows + g.raw(2);
			bool known = m.data.count(nm);
			char ty = known && !g.chance(1, 12) ? m.type[nm] : g.pick({'d', 'i', 's'});
			Cell x = value(g, ty);
			bool typed = g.b(), byrow = r < m.rows && g.chance(1, 3);
			string th = thrown([&]() {
					if(byrow)
					{
						auto it = walk(g, c, t->begin(), t->end(), m.rows, r);
						if(ty == 'd')
							typed ? it->Set_d(nm, x.d) : it->Set(nm, x.d);
						else if(ty == 'i')
							typed ? it->Set_i(nm, x.i) : it->Set(nm, x.i);
						else
							typed ? it->Set_s(nm, x.s) : it->Set(nm, x.s);
					}
					else if(ty == 'd')
						typed ? t->Set_d(nm, r, x.d) : t->Set(nm, r, x.d);
					else if(ty == 'i')
						typed ? t->Set_i(nm, r, x.i) : t->Set(nm, r, x.i);
					else
						typed ? t->Set_s(nm, r, x.s) : t->Set(nm, r, x.s);
				});
			string want = !known ? "out_of_range" : m.type[nm] != ty ? "WrongType" : r >= m.rows ? "out_of_range" : "nothing";
			c.eq(th, want, "exception of a typed write " + w.str());
			c.label("write_" + want);
			if(want == "nothing")
				m.data[nm][r] = x;
			break;
		}
		case 6:      // writes by string
		{
			string nm = anycol();
			size_t r = m.rows && !g.chance(1, 12) ? g.raw(m.rows - 1) : m.rows + g.raw(2);
			bool known = m.data.count(nm);
			char ty = known ? m.type[nm] : 's';
			Cell x = value(g, ty);
			string v = lit(x);
			bool junk = ty != 's' && g.chance(1, 6);
			if(junk)
				v = g.pick<string>({"", "abc", "--1", "*"});
			bool byrow = r < m.rows && g.b();
			string th = thrown([&]() {
					if(byrow)
						walk(g, c, t->begin(), t->end(), m.rows, r)->SetWithStr(nm, v);
					else
						t->SetWithStr(nm, r, v);
				});
			string want = !known ? "out_of_range" : junk ? "invalid_argument" : r >= m.rows ? "out_of_range" : "nothing";
			c.eq(th, want, "exception of a write from string '" + v + "' " + w.str());
			c.label("strwrite_" + want);
			if(want == "nothing")
				m.data[nm][r] = x;
			break;
		}
		case 7:      // typed reads, right and wrong
		{
			string nm = anycol();
			size_t r = m.rows && !g.chance(1, 6) ? g.raw(m.rows - 1) : m.rows + g.raw(2);
			bool known = m.data.count(nm);
			char ty = g.pick({'d', 'i', 's', 'a'});
			string want = !known ? "out_of_range" : ty != 'a' && m.type[nm] != ty ? "WrongType" :
				r >= m.rows ? "out_of_range" : "nothing";
			Cell x;
			string as;
			bool cst = r < m.rows && g.b(), byrow = r < m.rows && g.b();
			string th = thrown([&]() {
					if(cst)
					{
						const DataTable& ct = *t;
						auto it = walk(g, c, ct.begin(), ct.end(), m.rows, r);
						auto row = g.b() ? *it : ct.begin()[r];
						if(ty == 'd')
							x.d = row.Get_d(nm);
						else if(ty == 'i')
							x.i = row.Get_i(nm);
						else if(ty == 's')
							x.s = row.Get_s(nm);
						else
							as = row.GetAsStr(nm);
					}
					else if(byrow)
					{
						auto it = walk(g, c, t->begin(), t->end(), m.rows, r);
						auto row = g.b() ? *it : t->begin()[r];
						if(ty == 'd')
							x.d = row.Get_d(nm);
						else if(ty == 'i')
							x.i = row.Get_i(nm);
						else if(ty == 's')
							x.s = row.Get_s(nm);
						else
							as = row.GetAsStr(nm);
					}
					else if(ty == 'd')
						x.d = t->Get_d(nm, r);
					else if(ty == 'i')
						x.i = t->Get_i(nm, r);
					else if(ty == 's')
						x.s = t->Get_s(nm, r);
					else
						as = t->GetAsStr(nm, r);
				});
			c.eq(th, want, "exception of a read " + w.str());
			c.label("read_" + want);
			if(want == "nothing")
			{
				const Cell& y = m.data[nm][r];
				c.nontrivial();
				if(ty == 'd')
					c.same(x.d, y.d, "read " + w.str());
				else if(ty == 'i')
					c.eq(x.i, y.i, "read " + w.str());
				else if(ty == 's')
					c.eq(x.s, y.s, "read " + w.str());
				else
					c.eq(as, y.str(), "read as string " + w.str());
			}
			break;
		}
		case 8:      // new header field
		{
			string nm = g.pick<string>({"TITLE", "ENERGY", "N", "Q1", "A", "S"});
			char ty = g.chance(1, 12) ? 'x' : g.pick({'d', 'i', 's'});
			string th = thrown([&]() {
					t->HeaderAddColumn(nm, ty);
				});
			string want = m.head.count(nm) ? "invalid_argument" : ty == 'x' ? "WrongType" : "nothing";
			c.eq(th, want, "exception of adding a header field " + w.str());
			if(want == "nothing")
			{
				m.hcols.push_back(nm);
				Cell x;
				x.t = ty;
				m.head[nm] = x;
			}
			break;
		}
		case 9:      // header writes
		{
			string nm = anyhead();
			bool known = m.head.count(nm);
			char ty = known && !g.chance(1, 8) ? m.head[nm].t : g.pick({'d', 'i', 's'});
			Cell x = value(g, ty);
			bool str = g.b() && known;
			if(str)
			{
				ty = m.head[nm].t;
				x = value(g, ty);
			}
			bool typed = g.b();
			string th = thrown([&]() {
					if(str)
						t->HeaderSetWithStr(nm, lit(x));
					else if(ty == 'd')
						typed ? t->HeaderSet_d(nm, x.d) : t->HeaderSet(nm, x.d);
					else if(ty == 'i')
						typed ? t->HeaderSet_i(nm, x.i) : t->HeaderSet(nm, x.i);
					else
						typed ? t->HeaderSet_s(nm, x.s) : t->HeaderSet(nm, x.s);
				});
			string want = !known ? "out_of_range" : m.head[nm].t != ty ? "WrongType" : "nothing";
			c.eq(th, want, "exception of a header write " + w.str());
			c.label("header_write_" + want);
			if(want == "nothing")
				m.head[nm] = x;
			break;
		}
		case 10:     // header reads
		{
			string nm = anyhead();
			bool known = m.head.count(nm);
			char ty = g.pick({'d', 'i', 's', 'a'});
			string th = thrown([&]() {
					if(ty == 'd')
						t->HeaderGet_d(nm);
					else if(ty == 'i')
						t->HeaderGet_i(nm);
					else if(ty == 's')
						t->HeaderGet_s(nm);
					else
						t->HeaderGetAsStr(nm);
				});
			string want = !known ? "out_of_range" : ty != 'a' && m.head[nm].t != ty ? "WrongType" : "nothing";
			c.eq(th, want, "exception of a header read " + w.str());
			break;
		}
		case 11:     // a row given as arguments
		{
			if(m.cols.size() < 1)
				break;
			vector<Cell> v;
			size_t na = std::min<size_t>(m.cols.size(), 1 + g.raw(2));
			for(size_t i = 0; i < na; ++i)
				v.push_back(value(g, m.type[m.cols[i]]));
			string ty;
			for(auto& x : v)
				ty += x.t;
			auto one = [&](auto a) {
					if(na == 1)
						t->AddRow(a);
					else
					{
						auto two = [&](auto b) {
								if(na == 2)
									t->AddRow(a, b);
								else if(ty[2] == 'd')
									t->AddRow(a, b, v[2].d);
								else if(ty[2] == 'i')
									t->AddRow(a, b, v[2].i);
								else
									t->AddRow(a, b, v[2].s);
							};
						if(ty[1] == 'd')
							two(v[1].d);
						else if(ty[1] == 'i')
							two(v[1].i);
						else
							two(v[1].s);
					}
				};
			if(ty[0] == 'd')
				one(v[0].d);
			else if(ty[0] == 'i')
				one(v[0].i);
			else
				one(v[0].s);
			for(size_t i = 0; i < m.cols.size(); ++i)
			{
				Cell x;
				x.t = m.type[m.cols[i]];
				m.data[m.cols[i]].push_back(i < na ? v[i] : x);
			}
			m.rows++;
			c.label("variadic_row");
			break;
		}
		case 12:     // copies are independent
		{
			std::unique_ptr<DataTable> cp(new DataTable(*t));
			if(g.b())
				std::swap(cp, t);
			// scribble over the discarded copy
			if(m.cols.size() && m.rows)
			{
				string nm = m.cols[g.raw(m.cols.size() - 1)];
				char ty = m.type[nm];
				size_t r = g.raw(m.rows - 1);
				Cell x = value(g, ty);
				if(ty == 'd')
					cp->Set(nm, r, x.d);
				else if(ty == 'i')
					cp->Set(nm, r, x.i);
				else
					cp->Set(nm, r, x.s);
			}
			cp->AddRow();
			cp->AddColumn("only in the copy", 'd');
			c.label("copy");
			if(g.b())
			{
				DataTable asg;
				asg.AddColumn("Z", 'i');
				asg = *t;
				compare(c, m, asg, "in an assigned table " + w.str());
			}
			break;
		}
		default:
		{
			std::ostringstream o;
			t->OutputAscii(o);
			c.eq(o.str(), ascii(m), "printed table " + w.str());
			break;
		}
		}
		if(g.chance(1, 6) || k + 1 == n)
			compare(c, m, *t, w.str());
	}
	c.label(m.rows > 0 && m.cols.size() > 1, "has_table");
}

LAW(aperture_rows, 20000, 300000, "Copying aperture rows from another table copies the type, position and the four parameters")
{
	DataTable a, b;
	vector<string> cols = {"S", "APER_1", "APER_2", "APER_3", "APER_4"};
	auto mk = [&](DataTable& t, bool extra) {
			vector<string> all = cols;
			all.push_back("APERTYPE");
			if(extra)
				all.push_back("NAME");
			while(!all.empty())
			{
				size_t i = g.raw(all.size() - 1);
				t.AddColumn(all[i], all[i] == "APERTYPE" || all[i] == "NAME" ? 's' : 'd');
				all.erase(all.begin() + i);
			}
		};
	mk(a, true);
	mk(b, g.b());
	int n = g.i(1, 5);
	for(int i = 0; i < n; ++i)
	{
		a.AddRow();
		for(auto& s : cols)
			a.Set(s, i, num(g));
		a.Set("APERTYPE", i, text(g));
		a.Set("NAME", i, text(g));
	}
	vector<int> from;
	int k = g.i(1, 6);
	for(int i = 0; i < k; ++i)
	{
		from.push_back(g.i(0, n - 1));
		b.ApertureFromRow(*(a.begin() + from.back()));
	}
	c.desc << n << " rows, " << k << " copied";
	c.nontrivial(n > 1 && k > 1);
	c.eq((int) b.Length(), k, "rows after copying");
	for(int i = 0; i < k; ++i)
	{
		for(auto& s : cols)
			c.same(b.Get_d(s, i), a.Get_d(s, from[i]), "copied " + s);
		c.eq(b.Get_s("APERTYPE", i), a.Get_s("APERTYPE", from[i]), "copied type");
	}
}
