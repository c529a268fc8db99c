// P06: displaced and rotated elements.
// The reference keeps its own tree of rigid frames (geo.h), carries every particle as a straight ray into
// the displaced frames, tracks the bare component there, and carries it back to the nominal trajectory.
#include "mlib.h"
#include "geo.h"
#include "AcceleratorModelConstructor.h"
#include "SequenceFrame.h"
#include "MagnetMover.h"
#include "SupportStructure.h"
#include "GeometryPatch.h"
#include "PatchFrame.h"
#include "ConstructSrot.h"
using namespace ml;
using namespace geo;
pbt::Info pbt::info = {"P06",
	"at least one displacement that is not the identity acts on an element that is not a drift, or on a frame that holds several parts",
	"Bare components are tracked with the library's own integrators (their maps are decided by P01, P02 and P04); the frame arithmetic is independent."};

namespace
{
enum Kind {COMP, PATCH, SEQ, MOVER};
struct Node
{
	Kind kind = COMP;
	std::unique_ptr<El> el;
	std::unique_ptr<LatticeFrame> own;
	LatticeFrame* f = nullptr;
	Frame patch;            // geometry of a patch
	Frame loc;              // what Translate and Rotate made
	double mx = 0, my = 0, mroll = 0;
	int omode = 1;
	std::vector<std::unique_ptr<Node> > sub;

	double L() const
	{
		if(kind == COMP)
			return el->L;
		double s = 0;
		for(auto& n : sub)
			s += n->L();
		return s;
	}
	Frame at(double s) const        // frame at distance s from the entrance
	{
		if(kind == PATCH)
			return patch;
		if(kind == COMP)
			return arc(s, el->h, el->tilt);
		Frame f;
		for(auto& n : sub)
		{
			double d = std::min(s, n->L());
			f = then(f, n->at(d));
			s -= d;
			if(s <= 0)
				break;
		}
		return f;
	}
	double origin() const
	{
		if(kind == PATCH)
			return 0;
		return kind == COMP ? L() / 2 : omode == 0 ? 0 : omode == 1 ? L() / 2 : L();
	}
	Frame displaced() const
	{
		Frame d = loc;
		if(kind == MOVER)
			d = then(d, then(shift(mx, my, 0), turn(2, mroll)));
		return d;
	}
	Frame entrance() const          // from the nominal entrance plane to the displaced one
	{
		Frame in = inverse(at(origin()));
		return then(then(inverse(in), displaced()), in);
	}
	Frame exit() const              // from the displaced exit plane to the nominal one
	{
		Frame out = then(inverse(at(origin())), at(L()));
		return inverse(then(then(inverse(out), displaced()), out));
	}
	bool moved() const
	{
		Frame d = displaced();
		double s = std::fabs(d.o[0]) + std::fabs(d.o[1]) + std::fabs(d.o[2]);
		for(int i = 0; i < 3; ++i)
			for(int j = 0; j < 3; ++j)
				s += std::fabs(d.R.a[i][j] - (i == j));
		return s > 0;
	}
	void clear()
	{
		for(auto& n : sub)
			n->clear();
		loc = Frame();
		mx = my = mroll = 0;
		f->ClearLocalFrameTransform();
		if(kind == MOVER)
			static_cast<MagnetMover*>(f)->Reset();
	}
};
void ray(const Frame& f, V6& v)
{
	Ray r = see(f, Ray{v[0], v[1], v[2], v[3]});
	v[0] = r.x, v[1] = r.xp, v[2] = r.y, v[3] = r.yp;
}
// one step of a history of displacements
void displace(Gen& g, Ctx& c, Node& n, double ds, double da)
{
	switch(g.i(0, n.kind == MOVER ? 11 : 7))
	{
	case 0:
	case 1:
		{
			double x = g.coord(ds), y = g.coord(ds), z = g.coord(ds);
			n.f->Translate(x, y, z);
			n.loc = then(n.loc, shift(x, y, z));
			c.desc << "T(" << x << "," << y << "," << z << ")";
			break;
		}
	case 2:
		{
			double a = g.coord(da);
			n.f->RotateX(a);
			n.loc = then(n.loc, turn(0, a));
			c.desc << "X" << a;
			break;
		}
	case 3:
		{
			double a = g.coord(da);
			n.f->RotateY(a);
			n.loc = then(n.loc, turn(1, a));
			c.desc << "Y" << a;
			break;
		}
	case 4:
		{
			double a = g.coord(g.b() ? 3 : 0.1);
			n.f->RotateZ(a);
			n.loc = then(n.loc, turn(2, a));
			c.desc << "Z" << a;
			break;
		}
	case 5:
		{
			double a = g.coord(da), x = g.coord(ds), y = g.coord(ds);
			Transform3D t(Point3D(x, y, 0), Rotation3D::rotationY(a));
			Frame f = then(shift(x, y, 0), turn(1, a));
			c.desc << "A(" << x << "," << y << "," << a << ")";
			if(g.b())
			{
				n.f->ApplyLocalFrameTransform(t);
				n.loc = then(n.loc, f);
			}
			else
			{
				n.f->SetLocalFrameTransform(t);
				n.loc = f;
				c.desc << "set";
			}
			break;
		}
	case 6:
		{
			double x = g.coord(ds);
			n.f->TranslateX(x);
			n.loc = then(n.loc, shift(x, 0, 0));
			double y = g.coord(ds);
			n.f->TranslateY(y);
			n.loc = then(n.loc, shift(0, y, 0));
			c.desc << "XY(" << x << "," << y << ")";
			break;
		}
	case 7:
		if(g.chance(1, 4))
		{
			n.f->ClearLocalFrameTransform();
			n.loc = Frame();
			c.desc << "clear";
		}
		break;
	default:
		{
			MagnetMover* m = static_cast<MagnetMover*>(n.f);
			double v = g.coord(ds);
			c.desc << "M" << v;
			switch(g.i(0, 3))
			{
			case 0:
				m->SetX(n.mx = v);
				break;
			case 1:
				m->SetY(n.my = v);
				break;
			case 2:
				m->SetRoll(n.mroll = g.coord(1.5));
				c.desc << "r" << n.mroll;
				break;
			default:
				m->Reset();
				n.mx = n.my = n.mroll = 0;
				c.desc << "reset";
			}
			c.same(m->GetX(), n.mx, "mover x");
			c.same(m->GetY(), n.my, "mover y");
			c.near(m->GetRoll(), n.mroll, 1e-12, 1e-15, "mover roll");
		}
	}
	c.desc << " ";
}
void visit(Node& n, const std::function<void (Node&)>& f)
{
	f(n);
	for(auto& x : n.sub)
		visit(*x, f);
}
void build(Gen& g, Ctx& c, Node& n, int depth, double P0, double q, bool drifts, bool patches, int maxn)
{
	int k = g.i(1, maxn);
	for(int i = 0; i < k; ++i)
	{
		n.sub.emplace_back(new Node);
		Node& x = *n.sub.back();
		if(depth > 0 && g.chance(1, 3))
		{
			if(g.b())
			{
				x.kind = MOVER;
				x.f = new MagnetMover("M");
			}
			else
			{
				x.kind = SEQ;
				x.omode = g.i(0, 2);
				x.f = new SequenceFrame("F", (SequenceFrame::Origin) x.omode);
			}
			x.own.reset(x.f);
			c.desc << (x.kind == SEQ ? std::string(1, "ecx"[x.omode]) : "m") << "[";
			build(g, c, x, depth - 1, P0, q, drifts, false, maxn);
			c.desc << "]";
		}
		else if(patches && g.chance(1, 5))
		{
			x.kind = PATCH;
			GeometryPatch* p = new GeometryPatch;
			if(g.b())
			{
				double a = g.coord(1.5);
				p->RotateZ(a);
				x.patch = turn(2, a);
			}
			else
			{
				double dx = g.coord(1e-2), a = g.coord(1e-2);
				p->Translate(dx, 0, 0);
				p->RotateX(a);
				x.patch = then(shift(dx, 0, 0), turn(0, a));
			}
			x.own.reset(x.f = new PatchFrame(p, "P"));
			c.desc << "patch; ";
		}
		else
		{
			static const std::vector<std::string> kinds = {"drift", "bend", "quad", "skewquad", "sext", "solenoid", "xcor", "ycor", "oct"};
			ElOpts o;
			o.maxk1 = 0.5;
			x.el = element(g, P0, q, drifts ? "drift" : g.pick(kinds), o);
			x.own.reset(x.f = new ComponentFrame(*x.el->c, "C"));
			c.desc << x.el->text() << "; ";
		}
		static_cast<SequenceFrame*>(n.f)->AppendFrame(*x.f);
	}
}
// reference
void reference(Node& n, Set set, double P0, double q, V6& v, bool top, bool misaligned, bool& bad)
{
	if(!top && misaligned)
		ray(n.entrance(), v);
	if(n.kind == PATCH)
		ray(n.patch, v);
	else if(n.kind == COMP)
	{
		if(std::fabs(v[1]) > 0.3 || std::fabs(v[3]) > 0.3)
			bad = true;
		v = track1(set, *n.el->c, P0, q, v);
	}
	for(auto& x : n.sub)
		reference(*x, set, P0, q, v, false, misaligned, bad);
	if(!top && misaligned)
		ray(n.exit(), v);
	for(double x : v)
		if(!(std::fabs(x) < 0.5))
			bad = true;
}
struct Line
{
	Node root;
	std::vector<ComponentFrame*> flat;
};
void flatten(Line& l)
{
	struct T: public FrameTraverser
	{
		std::vector<ComponentFrame*>& v;
		T(std::vector<ComponentFrame*>& x) :
			v(x)
		{
		}
		void ActOn(LatticeFrame* f)
		{
			if(ComponentFrame* x = dynamic_cast<ComponentFrame*>(f))
				v.push_back(x);
		}
	} t(l.flat);
	l.root.f->Traverse(t);
}
void make(Gen& g, Ctx& c, Line& l, int depth, double P0, double q, bool drifts, bool patches, int maxn)
{
	l.root.kind = SEQ;
	l.root.omode = 0;
	l.root.own.reset(l.root.f = new SequenceFrame("GLOBAL", SequenceFrame::originAtEntrance));
	build(g, c, l.root, depth, P0, q, drifts, patches, maxn);
	l.root.f->ConsolidateConstruction();
	flatten(l);
}
V6 run(Line& l, Set set, double P0, double q, const V6& v, bool flat = false, bool axis = false, bool steps = false)
{
	AcceleratorModel::Beamline b(l.flat.begin(), l.flat.end() - 1, 0, l.flat.size() - 1);
	ParticleBunch* pb = new ParticleBunch(P0, q);
	pb->AddParticle(mk(v));
	ParticleTracker t(b, steps ? nullptr : pb);
	t.SetIntegratorSet(&iset(set));
	t.AssumeFlatLattice(flat);
	if(axis)
		t.InjectBeamOnAxis(true);
	V6 r;
	if(steps)
	{
		t.InitStepper(pb);
		while(t.StepComponent())
			;
		r = un(pb->GetParticles()[0]);
	}
	else
	{
		t.Run();
		r = un(t.GetTrackedBunch().GetParticles()[0]);
		delete pb;
	}
	return r;
}
void match(Ctx& c, const V6& a, const V6& b, const std::string& what, double rel = 1e-9)
{
	static const char* nm[] = {"x", "xp", "y", "yp", "ct", "dp"};
	double s = 1e-4;
	for(int i = 0; i < 4; ++i)
		s = std::max(s, std::fabs(b[i]));
	for(int i : {0, 1, 2, 3, 5})
		c.near(a[i], b[i], 0, rel * s, what + " " + nm[i]);
}
}

LAW(elements, 60000, 800000, "a displaced element acts as entrance change, nominal map, exit change")
{
	Set set = g.pick({TRANSPORT_SET, SYMP_SET, THIN_SET});
	double P0 = beam_momentum(g), q = charge(g);
	Line l;
	make(g, c, l, 0, P0, q, false, false, 3);
	c.desc << "| set " << set << " ";
	bool nt = false;
	for(int k = g.i(1, 5); k > 0; --k)
	{
		Node& n = *l.root.sub[g.i(0, (int) l.root.sub.size() - 1)];
		displace(g, c, n, 1e-3, 1e-2);
		nt = nt || (n.el->kind != "drift" && n.moved());
	}
	c.nontrivial(nt);
	V6 v = particle(g), e = v;
	bool bad = false, flat = g.chance(1, 8), steps = g.chance(1, 4);
	reference(l.root, set, P0, q, e, true, !flat, bad);
	if(bad)
		c.discard();
	match(c, run(l, set, P0, q, v, flat, false, steps), e, flat ? "flat lattice" : "displaced");
	if(g.b())
	{
		// back to nominal
		l.root.clear();
		V6 nom = v;
		for(auto& n : l.root.sub)
			nom = track1(set, *n->el->c, P0, q, nom);
		V6 r = run(l, set, P0, q, v);
		for(int i = 0; i < 6; ++i)
			if(std::isfinite(nom[i]))
				c.same(r[i], nom[i], "cleared, coordinate " + std::to_string(i));
	}
}

LAW(frames, 60000, 600000, "displacements of nested frames, movers, patches and components compose")
{
	Set set = g.pick({TRANSPORT_SET, SYMP_SET});
	double P0 = beam_momentum(g), q = charge(g);
	Line l;
	make(g, c, l, 3, P0, q, g.chance(1, 4), true, 3);
	std::vector<Node*> all;
	visit(l.root, [&](Node& n)
		{
			if(&n != &l.root)
				all.push_back(&n);
		});
	c.desc << "| set " << set << " ";
	bool nt = false;
	for(int k = g.i(1, 8); k > 0; --k)
	{
		int i = g.i(0, (int) all.size() - 1);
		c.desc << i << ":";
		displace(g, c, *all[i], 1e-3, 1e-2);
		nt = nt || (all[i]->moved() && all[i]->sub.size() > 1);
		if(all[i]->kind == SEQ || all[i]->kind == MOVER)
			c.label("displaced frame");
	}
	// what moves the whole line as one is ignored
	if(g.chance(1, 4))
		l.root.f->Translate(g.coord(1e-3), g.coord(1e-3), 0);
	c.nontrivial(nt);
	V6 v = particle(g), e = v;
	bool bad = false;
	reference(l.root, set, P0, q, e, true, true, bad);
	if(bad)
		c.discard();
	match(c, run(l, set, P0, q, v, false, false, g.chance(1, 4)), e, "displaced");
	bool mover = false;
	for(Node* n : all)
		mover = mover || n->kind == MOVER;
	if(!mover && g.chance(1, 3))
	{
		// a copy of the whole is displaced in the same way and independent of the original
		Line l2;
		l2.root.own.reset(l2.root.f = static_cast<LatticeFrame*>(l.root.f->Copy()));
		flatten(l2);
		c.eq(l2.flat.size(), l.flat.size(), "components of the copy");
		for(ComponentFrame* f : l.flat)
			f->ClearLocalFrameTransform();
		match(c, run(l2, set, P0, q, v), e, "copy");
		c.label("copy");
	}
	if(g.chance(1, 4))
	{
		l.root.clear();
		V6 nom = v;
		bad = false;
		reference(l.root, set, P0, q, nom, true, false, bad);
		if(!bad)
			match(c, run(l, set, P0, q, v), nom, "cleared");
	}
}

LAW(freespace, 30000, 400000, "no displacement of anything changes free space")
{
	Line l;
	make(g, c, l, 3, 1, 1, true, false, 4);
	std::vector<Node*> all;
	visit(l.root, [&](Node& n)
		{
			if(&n != &l.root)
				all.push_back(&n);
		});
	int moved = 0;
	for(int k = g.i(1, 10); k > 0; --k)
	{
		int i = g.i(0, (int) all.size() - 1);
		c.desc << i << ":";
		displace(g, c, *all[i], 0.1, 0.3);
		moved += all[i]->moved();
	}
	c.nontrivial(moved > 1);
	V6 v = particle(g, 1e-2), e = v;
	e[0] += l.root.L() * e[1];
	e[2] += l.root.L() * e[3];
	V6 r = run(l, TRANSPORT_SET, 1, 1, v);
	for(double x : r)
		if(!std::isfinite(x))
			c.discard();
	for(int i = 0; i < 4; ++i)
		c.near(r[i], e[i], 0, 1e-10 * (1 + l.root.L()), "coordinate " + std::to_string(i));
}

LAW(axis, 10000, 100000, "injection on axis leaves out the entrance change of the first element only")
{
	double P0 = beam_momentum(g), q = charge(g);
	Line l;
	make(g, c, l, 0, P0, q, false, false, 3);
	for(auto& n : l.root.sub)
		displace(g, c, *n, 1e-3, 1e-2);
	c.nontrivial(l.root.sub[0]->moved() && l.root.sub[0]->el->kind != "drift");
	V6 v = particle(g), e = v, w = v;
	// the particle that the first entrance change would turn into v
	ray(inverse(l.root.sub[0]->entrance()), w);
	e = w;
	bool bad = false;
	reference(l.root, TRANSPORT_SET, P0, q, e, true, true, bad);
	if(bad)
		c.discard();
	match(c, run(l, TRANSPORT_SET, P0, q, v, false, true), e, "on axis");
}

LAW(supports, 20000, 200000, "girders follow their two supports, mounts their one")
{
	// straight or bent line around a straight girder
	SequenceFrame top("GLOBAL", SequenceFrame::originAtEntrance);
	std::vector<std::unique_ptr<AcceleratorComponent> > comps;
	std::vector<std::unique_ptr<ComponentFrame> > frames;
	auto add = [&](SequenceFrame& f, double L, double h)
		{
			if(h == 0)
				comps.emplace_back(new Drift("D", L));
			else
				comps.emplace_back(new SectorBend("B", L, h, 1));
			frames.emplace_back(new ComponentFrame(*comps.back()));
			f.AppendFrame(*frames.back());
			c.desc << L << "," << h << " ";
			return arc(L, h);
		};
	Frame at;
	for(int k = g.i(0, 3); k > 0; --k)
		at = then(at, add(top, g.real(0.1, 3), g.b() ? 0 : g.slogu(1e-2, 1)));
	bool girder = g.chance(3, 4), bent = girder ? g.chance(1, 5) : false;
	std::unique_ptr<SupportStructure> s(girder ? static_cast<SupportStructure*>(new GirderMount("G")) : new SimpleMount("S"));
	Frame len;
	c.desc << (girder ? "girder [" : "mount [");
	double L = 0;
	for(int k = g.i(1, 3); k > 0; --k)
	{
		double l = g.real(0.2, 3);
		len = then(len, add(*s, l, bent ? g.slogu(1e-2, 0.5) : 0));
		L += l;
	}
	c.desc << "] ";
	top.AppendFrame(*s);
	add(top, 1, 0);
	top.ConsolidateConstruction();
	AcceleratorSupportList sup;
	c.eq(s->ExportSupports(sup), girder ? 2 : 1, "number of supports");
	c.eq(sup.size(), girder ? 2u : 1u, "exported supports");
	V3 off[2] = {V3{0, 0, 0}, V3{0, 0, 0}};
	// positions
	Frame in = at, out = then(at, len);
	auto mid = [&]()
		{
			V3 m = in.o;
			for(int i = 0; i < 3; ++i)
				m[i] = (in.o[i] + out.o[i]) / 2;
			return m;
		};
	if(girder)
	{
		c.near(sup[0]->GetLocation().x, in.o[0], 0, 1e-10, "support 1 x");
		c.near(sup[0]->GetLocation().y, in.o[2], 0, 1e-10, "support 1 z");
		c.near(sup[1]->GetLocation().x, out.o[0], 0, 1e-10, "support 2 x");
		c.near(sup[1]->GetLocation().y, out.o[2], 0, 1e-10, "support 2 z");
		c.near(sup[1]->GetArcPosition() - sup[0]->GetArcPosition(), L, 0, 1e-10, "distance of the supports");
		c.near(sup[0]->DistanceTo(*sup[1]), std::hypot(out.o[0] - in.o[0], out.o[2] - in.o[2]), 0, 1e-10, "chord");
	}
	else
	{
		c.near(sup[0]->GetLocation().x, mid()[0], 0, 1e-10, "support x");
		c.near(sup[0]->GetLocation().y, mid()[2], 0, 1e-10, "support z");
	}
	int changes = 0;
	for(int k = g.i(1, 4); k > 0; --k)
	{
		int w = bent ? 2 : g.i(0, girder ? 2 : 0);
		V3 d{g.coord(1e-4), g.coord(1e-4), g.coord(1e-4)};
		int how = g.i(0, 3);
		c.desc << w << "/" << how << "(" << d[0] << "," << d[1] << "," << d[2] << ") ";
		for(int i = 0; i < (girder ? 2 : 1); ++i)
		{
			if(w != 2 && w != i)
				continue;
			++changes;
			switch(how)
			{
			case 0:
				sup[i]->SetOffset(d[0], d[1], d[2]);
				off[i] = d;
				break;
			case 1:
				sup[i]->SetOffset(Vector3D(d[0], d[1], d[2]));
				off[i] = d;
				break;
			case 2:
				if(g.b())
					sup[i]->IncrementOffset(d[0], d[1], d[2]);
				else
					sup[i]->IncrementOffset(Vector3D(d[0], d[1], d[2]));
				off[i] = geo::add(off[i], d);
				break;
			default:
				sup[i]->Reset();
				off[i] = V3{0, 0, 0};
			}
			c.near(sup[i]->GetOffset().x, off[i][0], 0, 1e-16, "offset");
			c.near(sup[i]->GetOffset().z, off[i][2], 0, 1e-16, "offset");
		}
		if(g.b())
			s->GetEntrancePlaneTransform();
	}
	c.nontrivial(changes > 1);
	// where the ends of the structure are now
	Transform3D t = s->GetGeometryTransform(AcceleratorGeometry::entrance) * s->GetPhysicalTransform();
	Transform3D u = s->GetGeometryTransform(AcceleratorGeometry::exit) * s->GetPhysicalTransform();
	V3 e0 = geo::add(in.o, off[0]), e1 = geo::add(out.o, off[girder ? 1 : 0]);
	// compare across the chord (the length does not stretch) and along it at the entrance
	double tol = 1e-9 + 1e-7 * 4;
	V3 a{t.X().x, t.X().y, t.X().z}, b{u.X().x, u.X().y, u.X().z};
	static const char* nm[] = {"x", "y", "z"};
	for(int i = 0; i < 3; ++i)
		c.near(a[i], e0[i], 0, 1e-10, std::string("entrance ") + nm[i]);
	V3 ax = sub(out.o, in.o);
	double n = std::sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]);
	V3 dd = sub(b, e1);
	double along = (dd[0] * ax[0] + dd[1] * ax[1] + dd[2] * ax[2]) / n;
	double stretch = 0;
	for(int i = 0; i < 3; ++i)
		stretch += (off[girder ? 1 : 0][i] - off[0][i]) * ax[i] / n;
	for(int i = 0; i < 3; ++i)
		c.near(dd[i] - along * ax[i] / n, 0, 0, tol, std::string("exit ") + nm[i]);
	c.near(along, -stretch, 0, tol, "length along the structure");
	// a copy has supports of its own, which have not moved
	std::unique_ptr<SupportStructure> cp(static_cast<SupportStructure*>(s->Copy()));
	AcceleratorSupportList sup2;
	cp->ExportSupports(sup2);
	c.eq(sup2.size(), sup.size(), "supports of the copy");
	for(size_t i = 0; i < sup2.size(); ++i)
		c.check(sup2[i] != sup[0] && sup2[i] != sup.back(), "the copy has supports of its own");
	c.near(cp->GetGeometryLength(), L, 1e-13, 0, "length of the copy");
	compare(c, cp->GetTotalGeometryTransform(), len, 1e-11, "total geometry of the copy");
}
