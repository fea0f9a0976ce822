// Drives the editor part of the GUI: the undo commands over a model with the
// views attached ("lab"), and the main window through its widgets ("win").
// One request per line, fields separated by tabs; one JSON object per answer.
#include <sys/resource.h>

#include <cmath>
#include <csignal>
#include <cstdio>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <variant>
#include <vector>

#include <QSvgGenerator>
#include <QtWidgets>

#include "src/env.h"
#include "src/error.h"
#include "src/event.h"
#include "src/expression/constant.h"
#include "src/expression/exponential.h"
#include "src/fault_tree.h"
#include "src/initializer.h"
#include "src/model.h"
#include "src/serialization.h"
#include "src/settings.h"
#include "src/xml.h"

#include "gui/diagram.h"
#include "gui/elementcontainermodel.h"
#include "gui/eventdialog.h"
#include "gui/mainwindow.h"
#include "gui/model.h"
#include "gui/modeltree.h"
#include "gui/settingsdialog.h"

namespace mef = scram::mef;
namespace gm = scram::gui::model;
using scram::gui::EventDialog;
using scram::gui::MainWindow;

namespace {

QStringList messages;  // What Qt complained about.

void handler(QtMsgType type, const QMessageLogContext&, const QString& m) {
  if (type == QtCriticalMsg || type == QtFatalMsg)
    messages << m;
}

QString str(const std::string& s) { return QString::fromStdString(s); }

const char* kConnectives[] = {"and", "or", "atleast", "xor", "not", "nand",
                              "nor", "null", "iff", "imply", "cardinality"};
const char* name_of(mef::Connective c) {
  switch (c) {
    case mef::kAnd: return "and";
    case mef::kOr: return "or";
    case mef::kAtleast: return "atleast";
    case mef::kXor: return "xor";
    case mef::kNot: return "not";
    case mef::kNand: return "nand";
    case mef::kNor: return "nor";
    case mef::kNull: return "null";
    default: return "other";
  }
}
mef::Connective connective(const QString& s) {
  for (mef::Connective c : {mef::kAnd, mef::kOr, mef::kAtleast, mef::kXor,
                            mef::kNot, mef::kNand, mef::kNor, mef::kNull}) {
    if (s == name_of(c))
      return c;
  }
  throw std::runtime_error("harness: no such connective");
}

QJsonArray attributes(const mef::Element& e) {
  QJsonArray r;
  for (const mef::Attribute& a : e.attributes())
    r << QJsonArray{str(a.name()), str(a.value()), str(a.type())};
  return r;
}

QJsonValue expression(mef::Expression* e) {
  if (!e)
    return {};
  if (auto* c = dynamic_cast<mef::ConstantExpression*>(e))
    return QJsonArray{"const", QString::number(c->value(), 'g', 17)};
  if (auto* x = dynamic_cast<mef::Exponential*>(e)) {
    QJsonArray r{"exp"};
    for (mef::Expression* a : x->args()) {
      if (dynamic_cast<mef::MissionTime*>(a))
        r << "time";
      else
        r << expression(a);
    }
    return r;
  }
  return "other";
}

QJsonObject facts(mef::BasicEvent& e) {
  return {{"label", str(e.label())},
          {"attrs", attributes(e)},
          {"expr", expression(e.HasExpression() ? &e.expression() : nullptr)}};
}
QJsonObject facts(mef::HouseEvent& e) {
  return {{"label", str(e.label())},
          {"attrs", attributes(e)},
          {"state", e.state()}};
}
QJsonObject facts(mef::Gate& e) {
  QJsonArray args;
  for (const mef::Formula::Arg& a : e.formula().args()) {
    const char* kind = std::holds_alternative<mef::Gate*>(a.event)
                           ? "gate"
                           : std::holds_alternative<mef::BasicEvent*>(a.event)
                                 ? "basic"
                                 : "house";
    args << QJsonArray{
        a.complement ? "not" : "", kind,
        str(std::visit([](auto* p) -> const mef::Event* { return p; }, a.event)
                ->name())};
  }
  return {{"label", str(e.label())},
          {"attrs", attributes(e)},
          {"conn", name_of(e.formula().connective())},
          {"min", e.formula().min_number().value_or(0)},
          {"args", args}};
}
QJsonObject facts(mef::FaultTree& t) {
  std::set<std::string> gates;
  for (const mef::Gate& g : t.gates())
    gates.insert(g.name());
  QJsonArray g, tops;
  for (const std::string& s : gates)
    g << str(s);
  for (const mef::Gate* x : t.top_events())
    tops << str(x->name());
  return {{"label", str(t.label())},
          {"attrs", attributes(t)},
          {"gates", g},
          {"tops", tops}};
}

QJsonObject snapshot(mef::Model& m) {
  QJsonObject g, b, h, t;
  for (mef::Gate& x : m.table<mef::Gate>())
    g[str(x.name())] = facts(x);
  for (mef::BasicEvent& x : m.table<mef::BasicEvent>())
    b[str(x.name())] = facts(x);
  for (mef::HouseEvent& x : m.table<mef::HouseEvent>())
    h[str(x.name())] = facts(x);
  for (mef::FaultTree& x : m.table<mef::FaultTree>())
    t[str(x.name())] = facts(x);
  return {{"name", str(m.GetOptionalName())},
          {"label", str(m.label())},
          {"attrs", attributes(m)},
          {"gate", g},
          {"basic", b},
          {"house", h},
          {"ft", t}};
}

std::unique_ptr<mef::Model> read_model(const QString& file) {
  static scram::xml::Validator validator(scram::env::install_dir() +
                                         "/share/scram/gui.rng");
  if (file.isEmpty())
    return std::make_unique<mef::Model>();
  return mef::Initializer({file.toStdString()}, scram::core::Settings(), false,
                          &validator)
      .model();
}

// The rows of an item model as the notifications tell them.
class Shadow : public QObject {
 public:
  Shadow(const QString& name, QAbstractItemModel* m, QModelIndex parent = {})
      : name_(name), m_(m), parent_(parent) {
    fill();
    connect(m, &QAbstractItemModel::modelReset, this, [this] { fill(); });
    connect(m, &QAbstractItemModel::layoutChanged, this, [this] { fill(); });
    connect(m, &QAbstractItemModel::rowsInserted, this,
            [this](const QModelIndex& p, int a, int b) {
              if (p != QModelIndex(parent_))
                return;
              for (int i = a; i <= b; ++i)
                rows_.insert(i, row(i));
            });
    connect(m, &QAbstractItemModel::rowsRemoved, this,
            [this](const QModelIndex& p, int a, int b) {
              if (p != QModelIndex(parent_))
                return;
              for (int i = b; i >= a; --i)
                if (i < rows_.size())
                  rows_.removeAt(i);
            });
    connect(m, &QAbstractItemModel::rowsMoved, this, [this] { fill(); });
    connect(m, &QAbstractItemModel::dataChanged, this,
            [this](const QModelIndex& a, const QModelIndex& b) {
              if (a.parent() != QModelIndex(parent_))
                return;
              ++told_[QString("%1:%2-%3:%4").arg(a.row()).arg(a.column()).arg(b.row()).arg(b.column())];
              for (int i = a.row(); i <= b.row(); ++i) {
                if (i < 0 || i >= rows_.size() || a.column() < 0)
                  continue;
                for (int c = a.column(); c <= b.column(); ++c)
                  if (c < rows_[i].size())
                    rows_[i][c] = cell(i, c);
              }
            });
  }
  // The largest number of the same announcement since the last question.
  int told() {
    int n = 0;
    for (int x : told_) n = std::max(n, x);
    told_.clear();
    return n;
  }
  void check(QStringList* out) {
    int n = m_->rowCount(parent_);
    if (n != rows_.size()) {
      *out << QString("%1: %2 rows announced, %3 present")
                  .arg(name_).arg(rows_.size()).arg(n);
      return;
    }
    for (int i = 0; i < n; ++i) {
      if (rows_[i] != row(i))
        *out << QString("%1: row %2 shows [%3], has [%4]")
                    .arg(name_).arg(i).arg(rows_[i].join("|"), row(i).join("|"));
    }
  }

 private:
  QString cell(int i, int c) {
    return m_->data(m_->index(i, c, parent_), Qt::DisplayRole).toString();
  }
  QStringList row(int i) {
    QStringList r;
    for (int c = 0; c < m_->columnCount(parent_); ++c)
      r << cell(i, c);
    return r;
  }
  void fill() {
    rows_.clear();
    for (int i = 0; i < m_->rowCount(parent_); ++i)
      rows_ << row(i);
  }
  QString name_;
  QAbstractItemModel* m_;
  QPersistentModelIndex parent_;
  QList<QStringList> rows_;
  QMap<QString, int> told_;
};

struct Fields {
  QStringList f;
  int at = 0;
  QString next() { return at < f.size() ? f[at++] : QString(); }
  bool more() const { return at < f.size(); }
};

class Op {  // One environment for the requests of a case.
 public:
  virtual ~Op() = default;
  virtual void run(const QString& op, Fields& f) = 0;
  virtual QJsonObject state() = 0;
  virtual void problems(QStringList* out) = 0;
  virtual QUndoStack* stack() = 0;
  virtual void extra(QJsonObject*) {}
  QJsonArray notes;
  QJsonArray boxes;
};

// Text of the columns that a view must show for an element.
QStringList shown(gm::BasicEvent* e) {
  auto& b = *const_cast<mef::BasicEvent*>(e->data());
  bool undeveloped = false;
  for (const mef::Attribute& a : b.attributes())
    undeveloped |= a.name() == "flavor" && a.value() == "undeveloped";
  return {str(b.name()), undeveloped ? "Undeveloped" : "Basic",
          b.HasExpression() ? QVariant(b.p()).toString() : QString(),
          str(b.label())};
}
QStringList shown(gm::HouseEvent* e) {
  auto& b = *e->data();
  return {str(b.name()), b.state() ? "True" : "False", str(b.label())};
}
QStringList shown(gm::Gate* e) {
  auto& b = *e->data();
  QString c = name_of(b.formula().connective());
  if (c == "atleast")
    c = QString("at-least %1").arg(*b.formula().min_number());
  return {str(b.name()), c, QString::number(b.formula().args().size()),
          str(b.label())};
}

// Compares the rows of a view with the elements; fills by-element rows.
template <class T, class Elements>
void check_rows(const QString& name, QAbstractItemModel* m,
                const Elements& elements, QStringList* out, bool sorted) {
  std::set<void*> seen;
  int n = m->rowCount({});
  if (n != int(elements.size()))
    *out << QString("%1: %2 rows for %3 elements").arg(name).arg(n)
                .arg(elements.size());
  QString last;
  for (int i = 0; i < n; ++i) {
    QModelIndex index = m->index(i, 0, {});
    auto* e = static_cast<T*>(index.data(Qt::UserRole).template value<void*>());
    if (!e || !elements.count(e)) {
      *out << QString("%1: row %2 is no element of the model").arg(name).arg(i);
      continue;
    }
    if (!seen.insert(e).second)
      *out << QString("%1: row %2 is there twice").arg(name).arg(i);
    QStringList want = shown(e), got;
    for (int c = 0; c < m->columnCount({}); ++c)
      got << m->index(i, c, {}).data(Qt::DisplayRole).toString();
    if (want != got)
      *out << QString("%1: row %2 is [%3], not [%4]").arg(name).arg(i)
                  .arg(got.join("|"), want.join("|"));
    if (sorted && i && got[0] < last)
      *out << QString("%1: row %2 is out of order").arg(name).arg(i);
    last = got[0];
    if constexpr (std::is_same_v<T, gm::Gate>) {
      QStringList args, kids;
      for (const mef::Formula::Arg& a : e->data()->formula().args())
        args << str(std::visit(
                        [](auto* p) -> const mef::Event* { return p; }, a.event)
                        ->name());
      for (int k = 0; k < m->rowCount(index); ++k)
        kids << m->index(k, 0, index).data(Qt::DisplayRole).toString();
      if (args != kids)
        *out << QString("%1: gate %2 shows arguments [%3], not [%4]").arg(name)
                    .arg(want[0], kids.join("|"), args.join("|"));
    }
  }
}

QString kind_of(gm::Gate*) { return "gate"; }
QString kind_of(gm::BasicEvent*) { return "basic"; }
QString kind_of(gm::HouseEvent*) { return "house"; }

// The drawing of a fault tree, and what it must show.
class Drawing {
 public:
  Drawing(gm::Gate* root, gm::Model* model) : root_(root), model_(model), id_(root->id()) {
    scene_ = std::make_unique<scram::gui::diagram::DiagramScene>(root, model);
    QObject::connect(scene_.get(), &scram::gui::diagram::DiagramScene::activated,
                     &ctx_, [this](gm::Element* e) { active_ = e; ++activations_; });
    QObject::connect(model, qOverload<gm::Gate*>(&gm::Model::removed), &ctx_,
                     [this](gm::Gate* g) { if (g == root_) root_ = nullptr; });
  }
  void check(QStringList* out) {
    namespace d = scram::gui::diagram;
    QString name = "diagram of " + id_;
    std::vector<d::Event*> top;
    for (QGraphicsItem* i : scene_->items())
      if (auto* e = dynamic_cast<d::Event*>(i); e && !i->parentItem()) top.push_back(e);
    if (!root_) {
      if (!scene_->items().empty()) *out << name + ": shows a removed gate";
      return;
    }
    if (top.size() != 1) {
      *out << QString("%1: %2 roots").arg(name).arg(top.size());
      return;
    }
    seen_.clear();
    referred_.clear();
    boxes_.clear();
    walk(name, top[0], root_->data(), out);
    for (auto& [gate, item] : seen_)
      symbol(name, item, gate, referred_.count(gate), out);
    int n = 0;
    for (QGraphicsItem* i : scene_->items()) n += dynamic_cast<d::Event*>(i) != nullptr;
    if (n != int(boxes_.size()))
      *out << QString("%1: %2 events, not %3").arg(name).arg(n).arg(boxes_.size());
    std::sort(boxes_.begin(), boxes_.end(), [](const QRectF& a, const QRectF& b) {
      return std::make_pair(a.y(), a.x()) < std::make_pair(b.y(), b.x()); });
    for (size_t i = 1; i < boxes_.size(); ++i)
      if (boxes_[i].intersected(boxes_[i - 1]).width() > 1e-6 &&
          boxes_[i].intersected(boxes_[i - 1]).height() > 1e-6)
        *out << name + ": the boxes of events overlap";
  }
  // Renders the texts; clicks on every event.
  void touch(QStringList* out) {
    namespace d = scram::gui::diagram;
    QString name = "diagram of " + id_;
    std::vector<d::Event*> events;
    for (QGraphicsItem* i : scene_->items())
      if (auto* e = dynamic_cast<d::Event*>(i)) events.push_back(e);
    QBuffer buffer;
    QSvgGenerator svg;
    svg.setOutputDevice(&buffer);
    svg.setSize(scene_->sceneRect().size().toSize());
    svg.setViewBox(QRectF(QPointF(), scene_->sceneRect().size()));
    {
      QPainter painter(&svg);
      scene_->render(&painter);
    }
    QString shown;
    QStringList texts;
    QXmlStreamReader xml(buffer.data());
    while (!xml.atEnd())
      if (xml.readNext() == QXmlStreamReader::StartElement && xml.name() == "text")
        texts << xml.readElementText();
    shown = texts.join("").simplified().remove(' ');
    for (d::Event* e : events) {
      QString id = e->data()->id(), label = e->data()->label().simplified().remove(' ');
      if (!texts.contains(id) && !shown.contains(id.left(4)))
        *out << name + ": the name " + id + " is not shown";
      if (!shown.contains(label.left(8)))
        *out << name + ": the label of " + id + " is not shown";
      // A double click.
      scene_->clearSelection();
      active_ = nullptr;
      activations_ = 0;
      QPointF at = e->sceneBoundingRect().topLeft() +
                   QPointF(e->boundingRect().width() / 2, e->boundingRect().height() / 4);
      QGraphicsView* none = nullptr;
      (void)none;
      for (auto type : {QEvent::GraphicsSceneMousePress, QEvent::GraphicsSceneMouseRelease,
                        QEvent::GraphicsSceneMouseDoubleClick, QEvent::GraphicsSceneMouseRelease}) {
        QGraphicsSceneMouseEvent m(type);
        m.setButton(Qt::LeftButton);
        m.setButtons(type == QEvent::GraphicsSceneMouseRelease ? Qt::NoButton : Qt::LeftButton);
        m.setScenePos(at);
        m.setButtonDownScenePos(Qt::LeftButton, at);
        QApplication::sendEvent(scene_.get(), &m);
      }
      if (activations_ != 1 || active_ != e->data())
        *out << QString("%1: a double click on %2 activates %3 (%4 times)").arg(name).arg(id)
                    .arg(active_ ? active_->id() : "nothing").arg(activations_);
      scene_->clearSelection();
    }
  }
  bool dead() const { return !root_; }
  int shared() const { return int(referred_.size()); }

 private:
  using Item = scram::gui::diagram::Event;
  void walk(const QString& name, Item* item, mef::Gate* gate, QStringList* out) {
    namespace d = scram::gui::diagram;
    boxes_.push_back(item->sceneBoundingRect());
    if (!dynamic_cast<d::Gate*>(item) ||
        item->data() != model_->gates().find(gate)->get()) {
      *out << name + ": gate " + str(gate->name()) + " is drawn as " + item->data()->id();
      return;
    }
    seen_[gate] = item;
    std::vector<Item*> kids;
    for (QGraphicsItem* i : item->childItems())
      if (auto* e = dynamic_cast<Item*>(i)) kids.push_back(e);
    std::sort(kids.begin(), kids.end(),
              [](Item* a, Item* b) { return a->pos().x() < b->pos().x(); });
    const auto& args = gate->formula().args();
    if (kids.size() != args.size()) {
      *out << QString("%1: gate %2 has %3 arguments drawn, not %4").arg(name)
                  .arg(str(gate->name())).arg(kids.size()).arg(args.size());
      return;
    }
    for (size_t i = 0; i < kids.size(); ++i) {
      gm::Element* want = nullptr;
      const char* kind = "";
      bool ok = false;
      if (auto* g = std::get_if<mef::Gate*>(&args[i].event)) {
        if (!seen_.count(*g)) {
          walk(name, kids[i], *g, out);
          if (kids[i]->pos().y() <= 0) *out << name + ": an argument is above its gate";
          continue;
        }
        want = model_->gates().find(*g)->get();
        ok = dynamic_cast<d::TransferIn*>(kids[i]);
        kind = "transfer";
        referred_.insert(*g);
      } else if (auto* b = std::get_if<mef::BasicEvent*>(&args[i].event)) {
        auto* proxy = model_->basicEvents().find(*b)->get();
        bool undeveloped = false;
        for (const mef::Attribute& a : (*b)->attributes())
          undeveloped |= a.name() == "flavor" && a.value() == "undeveloped";
        want = proxy;
        ok = undeveloped ? dynamic_cast<d::UndevelopedEvent*>(kids[i]) != nullptr
                         : dynamic_cast<d::BasicEvent*>(kids[i]) != nullptr;
        kind = undeveloped ? "undeveloped event" : "basic event";
      } else {
        auto* h = std::get<mef::HouseEvent*>(args[i].event);
        want = model_->houseEvents().find(h)->get();
        ok = dynamic_cast<d::HouseEvent*>(kids[i]);
        kind = "house event";
      }
      boxes_.push_back(kids[i]->sceneBoundingRect());
      if (!ok || kids[i]->data() != want)
        *out << QString("%1: argument %2 of %3 is not the %4 %5").arg(name).arg(i)
                    .arg(str(gate->name()), kind, want->id());
      if (kids[i]->pos().y() <= 0) *out << name + ": an argument is above its gate";
    }
  }
  static void shape(QGraphicsItem* i, QStringList* out) {
    if (dynamic_cast<Item*>(i)) return;
    if (auto* p = dynamic_cast<QGraphicsPathItem*>(i)) {
      QPainterPath q = p->path();
      QString s = QString("path%1").arg(i->scale());
      for (int k = 0; k < q.elementCount(); ++k)
        s += QString(" %1,%2").arg(qRound(q.elementAt(k).x * 8)).arg(qRound(q.elementAt(k).y * 8));
      *out << s;
    } else if (auto* p = dynamic_cast<QGraphicsPolygonItem*>(i)) {
      *out << QString("polygon%1").arg(p->polygon().size());
    } else if (dynamic_cast<QGraphicsEllipseItem*>(i)) {
      *out << "ellipse";
    } else if (auto* t = dynamic_cast<QGraphicsTextItem*>(i)) {
      *out << "text " + t->toPlainText();
    }
    for (QGraphicsItem* k : i->childItems()) shape(k, out);
  }
  // The symbol tells the connective and that the gate is referred to elsewhere.
  void symbol(const QString& name, Item* item, const mef::Gate* gate, bool out_mark, QStringList* out) {
    static std::map<QString, QString> of, back;
    QString key = name_of(gate->formula().connective());
    if (gate->formula().connective() == mef::kAtleast)
      key += QString(" %1/%2").arg(*gate->formula().min_number()).arg(gate->formula().args().size());
    if (out_mark) key += " shared";
    QStringList s;
    for (QGraphicsItem* k : item->childItems()) shape(k, &s);
    s.sort();
    QString sig = s.join("; ");
    if (of.emplace(key, sig).first->second != sig)
      *out << QString("%1: gate %2 (%3) has another symbol than other such gates").arg(name, str(gate->name()), key);
    if (back.emplace(sig, key).first->second != key)
      *out << QString("%1: gate %2 (%3) has the symbol of: %4").arg(name, str(gate->name()), key, back[sig]);
    if (gate->formula().connective() == mef::kAtleast &&
        !sig.contains(QString("text %1/%2").arg(*gate->formula().min_number()).arg(gate->formula().args().size())))
      *out << QString("%1: gate %2 does not tell its numbers").arg(name, str(gate->name()));
  }

  gm::Gate* root_;
  gm::Model* model_;
  QString id_;
  QObject ctx_;
  std::unique_ptr<scram::gui::diagram::DiagramScene> scene_;
  gm::Element* active_ = nullptr;
  int activations_ = 0;
  std::map<const mef::Gate*, Item*> seen_;
  std::set<const mef::Gate*> referred_;
  std::vector<QRectF> boxes_;
};

class Lab : public Op {
 public:
  explicit Lab(const QString& file, int limit) : model_(read_model(file)) {
    gui_ = std::make_unique<gm::Model>(model_.get());
    if (limit)
      stack_.setUndoLimit(limit);
    for (auto& p : gui_->gates()) watch(p.get());
    for (auto& p : gui_->basicEvents()) watch(p.get());
    for (auto& p : gui_->houseEvents()) watch(p.get());
    auto* m = gui_.get();
    QObject::connect(m, &gm::Element::labelChanged, &ctx_,
                     [this](const QString& v) { note("label", "model", "", v); });
    QObject::connect(m, &gm::Model::modelNameChanged, &ctx_,
                     [this](const QString& v) { note("name", "model", "", v); });
    table<gm::Gate>(); table<gm::BasicEvent>(); table<gm::HouseEvent>();
    QObject::connect(m, qOverload<mef::FaultTree*>(&gm::Model::added), &ctx_,
                     [this](mef::FaultTree* t) { note("added", "ft", str(t->name())); });
    QObject::connect(m, qOverload<mef::FaultTree*>(&gm::Model::removed), &ctx_,
                     [this](mef::FaultTree* t) { note("removed", "ft", str(t->name())); });
    tree_ = std::make_unique<scram::gui::ModelTree>(m);
    gates_ = std::make_unique<gm::GateContainerModel>(m);
    basics_ = std::make_unique<gm::BasicEventContainerModel>(m);
    houses_ = std::make_unique<gm::HouseEventContainerModel>(m);
    gsort_.setSourceModel(gates_.get());
    bsort_.setSourceModel(basics_.get());
    hsort_.setSourceModel(houses_.get());
    for (QSortFilterProxyModel* s :
         {(QSortFilterProxyModel*)&gsort_, (QSortFilterProxyModel*)&bsort_,
          (QSortFilterProxyModel*)&hsort_})
      s->sort(0);
    auto attach = [this](const QString& n, QAbstractItemModel* x) {
      shadows_.push_back(std::make_unique<Shadow>(n, x));
    };
    attach("tree", tree_.get());
    attach("gates", gates_.get());
    attach("basic events", basics_.get());
    attach("house events", houses_.get());
    shadows_.push_back(std::make_unique<Shadow>("fault trees", tree_.get(),
                                                tree_->index(0, 0, {})));
    shadows_.push_back(std::make_unique<Shadow>("sorted gates", &gsort_));
    shadows_.push_back(std::make_unique<Shadow>("sorted basic events", &bsort_));
    shadows_.push_back(std::make_unique<Shadow>("sorted house events", &hsort_));
  }
  ~Lab() override {
    drawings_.clear();
    shadows_.clear();
  }
  QUndoStack* stack() override { return &stack_; }
  QJsonObject state() override { return snapshot(*model_); }
  void extra(QJsonObject* r) override {
    int n = 0;
    for (auto& d : drawings_) n += d.second->shared();
    (*r)["drawings"] = int(drawings_.size());
    (*r)["shared"] = n;
  }

  void run(const QString& op, Fields& f) override {
    if (op == "begin") { stack_.beginMacro(f.next()); return; }
    if (op == "end") { stack_.endMacro(); return; }
    if (op == "draw") {  // Opens the diagram of a fault tree.
      QString n = f.next();
      drawings_[n] = std::make_unique<Drawing>(get<gm::Gate>(str(tree(n)->top_events().front()->name())), gui_.get());
      return;
    }
    if (op == "touch") {
      for (auto& d : drawings_) d.second->touch(&touched_);
      return;
    }
    if (op == "label") {
      QString kind = f.next(), n = f.next();
      gm::Element* e = kind == "model" ? gui_.get() : element(kind, n);
      stack_.push(new gm::Element::SetLabel(e, f.next()));
    } else if (op == "rename") {
      QString kind = f.next(), n = f.next(), to = f.next();
      mef::FaultTree* t = tree(f.next());
      if (kind == "gate")
        stack_.push(new gm::Element::SetId<gm::Gate>(get<gm::Gate>(n), to, model_.get(), t));
      else if (kind == "basic")
        stack_.push(new gm::Element::SetId<gm::BasicEvent>(get<gm::BasicEvent>(n), to, model_.get(), t));
      else
        stack_.push(new gm::Element::SetId<gm::HouseEvent>(get<gm::HouseEvent>(n), to, model_.get(), t));
    } else if (op == "expr") {
      QString n = f.next();
      stack_.push(new gm::BasicEvent::SetExpression(get<gm::BasicEvent>(n), expr(f.next())));
    } else if (op == "flavor") {
      QString n = f.next();
      stack_.push(new gm::BasicEvent::SetFlavor(
          get<gm::BasicEvent>(n), f.next() == "undeveloped" ? gm::BasicEvent::Undeveloped
                                                            : gm::BasicEvent::Basic));
    } else if (op == "state") {
      QString n = f.next();
      stack_.push(new gm::HouseEvent::SetState(get<gm::HouseEvent>(n), f.next() == "1"));
    } else if (op == "formula") {
      QString n = f.next();
      stack_.push(new gm::Gate::SetFormula(get<gm::Gate>(n), formula(f.next())));
    } else if (op == "name") {
      stack_.push(new gm::Model::SetName(f.next(), gui_.get()));
    } else if (op == "addft") {
      stack_.push(new gm::Model::AddFaultTree(
          std::make_unique<mef::FaultTree>(f.next().toStdString()), gui_.get()));
    } else if (op == "rmft") {
      stack_.push(new gm::Model::RemoveFaultTree(tree(f.next()), gui_.get()));
    } else if (op == "tops") {
      tree(f.next())->CollectTopEvents();
    } else if (op == "add") {
      QString kind = f.next(), n = f.next(), label = f.next(), data = f.next();
      mef::FaultTree* t = tree(f.next());
      if (kind == "gate")
        stack_.push(new gm::Model::AddEvent<gm::Gate>(make<mef::Gate>(n, label, data), gui_.get(), t));
      else if (kind == "basic")
        stack_.push(new gm::Model::AddEvent<gm::BasicEvent>(make<mef::BasicEvent>(n, label, data), gui_.get(), t));
      else
        stack_.push(new gm::Model::AddEvent<gm::HouseEvent>(make<mef::HouseEvent>(n, label, data), gui_.get(), t));
    } else if (op == "rm") {
      QString kind = f.next(), n = f.next();
      mef::FaultTree* t = tree(f.next());
      if (kind == "gate")
        stack_.push(new gm::Model::RemoveEvent<gm::Gate>(get<gm::Gate>(n), gui_.get(), t));
      else if (kind == "basic")
        stack_.push(new gm::Model::RemoveEvent<gm::BasicEvent>(get<gm::BasicEvent>(n), gui_.get(), t));
      else
        stack_.push(new gm::Model::RemoveEvent<gm::HouseEvent>(get<gm::HouseEvent>(n), gui_.get(), t));
    } else if (op == "type") {
      QString from = f.next(), n = f.next(), to = f.next(), label = f.next(), data = f.next();
      mef::FaultTree* t = tree(f.next());
      if (from == "gate" && to == "basic") change<gm::Gate, gm::BasicEvent>(n, label, data, t);
      else if (from == "gate" && to == "house") change<gm::Gate, gm::HouseEvent>(n, label, data, t);
      else if (from == "basic" && to == "gate") change<gm::BasicEvent, gm::Gate>(n, label, data, t);
      else if (from == "basic" && to == "house") change<gm::BasicEvent, gm::HouseEvent>(n, label, data, t);
      else if (from == "house" && to == "gate") change<gm::HouseEvent, gm::Gate>(n, label, data, t);
      else change<gm::HouseEvent, gm::BasicEvent>(n, label, data, t);
    } else if (op == "save") {
      mef::Serialize(*model_, f.next().toStdString());
    } else {
      throw std::runtime_error("harness: no such request");
    }
  }

  void problems(QStringList* out) override {
    for (auto& s : shadows_)
      s->check(out);
    // Each change of an element is announced once.
    for (int i = 1; i < 4; ++i)
      if (shadows_[i]->told() > notes.size())
        *out << QString("a view announces %1 changes more than once").arg(notes.size());
    *out << touched_;
    touched_.clear();
    for (auto& d : drawings_) d.second->check(out);
    // The window closes a diagram with its tree.
    for (auto i = drawings_.begin(); i != drawings_.end();)
      i = i->second->dead() ? drawings_.erase(i) : std::next(i);
    std::set<gm::Gate*> g = proxies<gm::Gate, mef::Gate>("gates", out);
    std::set<gm::BasicEvent*> b = proxies<gm::BasicEvent, mef::BasicEvent>("basic events", out);
    std::set<gm::HouseEvent*> h = proxies<gm::HouseEvent, mef::HouseEvent>("house events", out);
    check_rows<gm::Gate>("gates", gates_.get(), g, out, false);
    check_rows<gm::BasicEvent>("basic events", basics_.get(), b, out, false);
    check_rows<gm::HouseEvent>("house events", houses_.get(), h, out, false);
    check_rows<gm::Gate>("sorted gates", &gsort_, g, out, true);
    check_rows<gm::BasicEvent>("sorted basic events", &bsort_, b, out, true);
    check_rows<gm::HouseEvent>("sorted house events", &hsort_, h, out, true);
    // Getters of the proxies.
    for (gm::BasicEvent* e : b) {
      auto* d = e->data();
      QStringList s = shown(e);
      if (e->label() != s[3] || gm::BasicEvent::flavorToString(e->flavor()) != s[1] ||
          (e->expression() != nullptr) != d->HasExpression() ||
          e->probability<QVariant>().toString() != s[2])
        *out << "basic event " + e->id() + ": the proxy differs from its event";
    }
    for (gm::HouseEvent* e : h)
      if (e->state() != e->data()->state() || e->label() != shown(e)[2])
        *out << "house event " + e->id() + ": the proxy differs from its event";
    for (gm::Gate* e : g)
      if (e->type() != e->data()->formula().connective() || e->label() != shown(e)[3] ||
          e->numArgs() != int(e->data()->formula().args().size()) ||
          e->minNumber() != e->data()->formula().min_number())
        *out << "gate " + e->id() + ": the proxy differs from its gate";
    // Parents.
    for (gm::Gate* e : g) parents(e, g, out);
    for (gm::BasicEvent* e : b) parents(e, g, out);
    for (gm::HouseEvent* e : h) parents(e, g, out);
    // The tree.
    QStringList trees, want;
    for (int i = 0; i < tree_->rowCount(tree_->index(0, 0, {})); ++i)
      trees << tree_->index(i, 0, tree_->index(0, 0, {})).data(Qt::DisplayRole).toString();
    std::set<std::string> names;
    for (mef::FaultTree& t : model_->table<mef::FaultTree>())
      names.insert(t.name());
    for (auto& s : names) want << str(s);
    if (trees != want)
      *out << QString("tree: fault trees [%1], not [%2]").arg(trees.join("|"), want.join("|"));
    QStringList top, topwant{QString("Fault Trees (%1)").arg(names.size()),
                             QString("Gates (%1)").arg(g.size()),
                             QString("Basic Events (%1)").arg(b.size()),
                             QString("House Events (%1)").arg(h.size())};
    for (int i = 0; i < tree_->rowCount({}); ++i)
      top << tree_->index(i, 0, {}).data(Qt::DisplayRole).toString();
    if (top != topwant)
      *out << QString("tree: [%1], not [%2]").arg(top.join("|"), topwant.join("|"));
    // Lookups by name.
    auto lookup = [&](const std::string& n, const void* p) {
      try {
        mef::Formula::ArgEvent e = model_->GetEvent(n);
        const void* q = std::visit([](auto* x) -> const void* { return x; }, e);
        if (q != p)
          *out << "event " + str(n) + " is found as another element";
      } catch (const scram::Error&) {
        *out << "event " + str(n) + " is not found by its name";
      }
    };
    for (mef::Gate& x : model_->table<mef::Gate>()) lookup(x.name(), &x);
    for (mef::BasicEvent& x : model_->table<mef::BasicEvent>()) lookup(x.name(), &x);
    for (mef::HouseEvent& x : model_->table<mef::HouseEvent>()) lookup(x.name(), &x);
    for (mef::FaultTree& t : model_->table<mef::FaultTree>()) {
      for (mef::Gate& x : t.table<mef::Gate>())
        if (!t.gates().count(x.name()) || !model_->gates().count(x.name()))
          *out << "gate " + str(x.name()) + " is not found in its fault tree";
    }
  }

 private:
  void note(const QString& what, const QString& kind, const QString& n, const QJsonValue& v = {}) {
    notes << QJsonArray{what, kind, n, v};
  }
  bool fresh(QObject* o) {
    if (!watched_.insert(o).second)
      return false;
    QObject::connect(o, &QObject::destroyed, &ctx_, [this, o] { watched_.erase(o); });
    return true;
  }
  template <class T>
  void common(T* e) {
    QObject::connect(e, &gm::Element::labelChanged, &ctx_, [this, e](const QString& v) { note("label", kind_of(e), e->id(), v); });
    QObject::connect(e, &gm::Element::idChanged, &ctx_, [this, e](const QString& v) { note("id", kind_of(e), e->id(), v); });
  }
  void watch(gm::Gate* e) {
    if (!fresh(e)) return;
    common(e);
    QObject::connect(e, &gm::Gate::formulaChanged, &ctx_, [this, e] { note("formula", "gate", e->id()); });
  }
  void watch(gm::BasicEvent* e) {
    if (!fresh(e)) return;
    common(e);
    QObject::connect(e, &gm::BasicEvent::expressionChanged, &ctx_, [this, e](mef::Expression* x) { note("expr", "basic", e->id(), expression(x)); });
    QObject::connect(e, &gm::BasicEvent::flavorChanged, &ctx_, [this, e](gm::BasicEvent::Flavor v) { note("flavor", "basic", e->id(), v == gm::BasicEvent::Undeveloped ? "undeveloped" : "basic"); });
  }
  void watch(gm::HouseEvent* e) {
    if (!fresh(e)) return;
    common(e);
    QObject::connect(e, &gm::HouseEvent::stateChanged, &ctx_, [this, e](bool v) { note("state", "house", e->id(), v); });
  }
  template <class T>
  void table() {
    QObject::connect(gui_.get(), qOverload<T*>(&gm::Model::added), &ctx_, [this](T* e) { note("added", kind_of(e), e->id()); watch(e); });
    QObject::connect(gui_.get(), qOverload<T*>(&gm::Model::removed), &ctx_, [this](T* e) { note("removed", kind_of(e), e->id()); });
  }
  template <class T, class E>
  std::set<T*> proxies(const char* what, QStringList* out) {
    std::set<T*> r;
    std::set<const void*> data;
    for (auto& p : gui_->template table<T>()) {
      if (!p) { *out << QString("%1: an empty proxy").arg(what); continue; }
      r.insert(p.get());
      data.insert(p->data());
    }
    std::set<const void*> want;
    for (E& e : model_->template table<E>()) want.insert(&e);
    if (data != want)
      *out << QString("%1: the proxies are not those of the model's elements").arg(what);
    return r;
  }
  template <class T>
  void parents(T* e, const std::set<gm::Gate*>& gates, QStringList* out) {
    std::multiset<gm::Gate*> want, got;
    mef::Formula::ArgEvent ev = e->data();
    for (gm::Gate* g : gates)
      for (const mef::Formula::Arg& a : g->data()->formula().args())
        if (a.event == ev) want.insert(g);
    for (gm::Gate* g : gui_->parents(ev)) got.insert(g);
    if (want != got)
      *out << "event " + e->id() + ": wrong parents";
  }
  template <class T>
  T* get(const QString& n) {
    for (auto& p : gui_->template table<T>())
      if (p && p->id() == n) return p.get();
    throw std::runtime_error("harness: no element " + n.toStdString());
  }
  gm::Element* element(const QString& kind, const QString& n) {
    if (kind == "gate") return get<gm::Gate>(n);
    if (kind == "basic") return get<gm::BasicEvent>(n);
    return get<gm::HouseEvent>(n);
  }
  mef::FaultTree* tree(const QString& n) {
    if (n.isEmpty()) return nullptr;
    for (mef::FaultTree& t : model_->table<mef::FaultTree>())
      if (str(t.name()) == n) return &t;
    throw std::runtime_error("harness: no fault tree " + n.toStdString());
  }
  mef::Expression* expr(const QString& s) {
    if (s.isEmpty()) return nullptr;
    QStringList p = s.split(' ');
    auto c = std::make_unique<mef::ConstantExpression>(p[1].toDouble());
    mef::Expression* r = c.get();
    model_->Add(std::move(c));
    if (p[0] == "exp") {
      auto x = std::make_unique<mef::Exponential>(r, &model_->mission_time());
      r = x.get();
      model_->Add(std::move(x));
    }
    return r;
  }
  std::unique_ptr<mef::Formula> formula(const QString& s) {
    QStringList p = s.split(' ');
    mef::Connective c = connective(p[0]);
    std::optional<int> min;
    if (c == mef::kAtleast) min = p[1].toInt();
    mef::Formula::ArgSet args;
    for (int i = 2; i < p.size(); ++i)
      args.Add(model_->GetEvent(p[i].toStdString()));
    return std::make_unique<mef::Formula>(c, std::move(args), min);
  }
  template <class E>
  std::unique_ptr<E> make(const QString& n, const QString& label, const QString& data) {
    auto e = std::make_unique<E>(n.toStdString());
    e->label(label.toStdString());
    if constexpr (std::is_same_v<E, mef::Gate>) {
      e->formula(formula(data));
    } else if constexpr (std::is_same_v<E, mef::HouseEvent>) {
      e->state(data == "1");
    } else {
      QStringList p = data.split(';');  // flavor;expression
      if (p[0] == "undeveloped") e->AddAttribute({"flavor", "undeveloped", ""});
      if (mef::Expression* x = expr(p[1])) e->expression(x);
    }
    return e;
  }
  template <class E, class T>
  void change(const QString& n, const QString& label, const QString& data, mef::FaultTree* t) {
    stack_.push(new gm::Model::ChangeEventType<E, T>(
        get<E>(n), make<typename T::Origin>(n, label, data), gui_.get(), t));
  }

  std::set<QObject*> watched_;
  QStringList touched_;
  std::map<QString, std::unique_ptr<Drawing>> drawings_;
  QObject ctx_;
  std::unique_ptr<mef::Model> model_;
  std::unique_ptr<gm::Model> gui_;
  QUndoStack stack_;
  std::unique_ptr<scram::gui::ModelTree> tree_;
  std::unique_ptr<gm::GateContainerModel> gates_;
  std::unique_ptr<gm::BasicEventContainerModel> basics_;
  std::unique_ptr<gm::HouseEventContainerModel> houses_;
  gm::GateSortFilterProxyModel gsort_;
  gm::SortFilterProxyModel bsort_, hsort_;
  std::vector<std::unique_ptr<Shadow>> shadows_;
};

// The main window, through its widgets only.
class Win : public Op {
 public:
  explicit Win(const QString& file) {
    w_ = std::make_unique<MainWindow>();
    w_->show();
    QApplication::processEvents();
    if (file.isEmpty())
      action("actionNewModel")->trigger();
    else if (!w_->addInputFiles({file.toStdString()}))
      throw std::runtime_error("harness: the window rejected the file");
    attach();
    timer_.setInterval(0);
    QObject::connect(&timer_, &QTimer::timeout, &timer_, [this] { modal(); });
    timer_.start();
  }
  // Opens the tables of the model.
  void attach() {
    if (views_[0] && views_[1] && views_[2]) return;
    auto* tree = w_->findChild<QTreeView*>("modelTree");
    for (int i : {1, 2, 3}) {
      emit tree->activated(tree->model()->index(i, 0));
      views_[i - 1] = qobject_cast<QAbstractItemView*>(tabs()->currentWidget());
    }
    QApplication::processEvents();
  }
  ~Win() override {
    timer_.stop();
    w_->hide();
    w_.reset();
  }
  QUndoStack* stack() override { return w_->findChild<QUndoStack*>(); }
  void extra(QJsonObject* r) override {
    QJsonArray t, recent;
    for (int i = 0; i < tabs()->count(); ++i) t << tabs()->tabText(i);
    for (QAction* a : child<QMenu>(w_.get(), "menuRecentFiles")->actions())
      if (a->isVisible() && a->text().startsWith("/")) recent << a->text();
    auto* m = child<QTreeView>(w_.get(), "reportTree")->model();
    (*r)["tabs"] = t;
    (*r)["recent"] = recent;
    (*r)["report"] = m ? m->rowCount() : -1;
    (*r)["export"] = action("actionExportReportAs")->isEnabled();
    (*r)["save"] = action("actionSave")->isEnabled();
    (*r)["visible"] = w_->isVisible();
    if (!out_.isEmpty()) (*r)["out"] = out_;
    out_ = {};
  }
  QJsonObject state() override {
    attach();
    QJsonObject g, b, h, t;
    auto put = [](QJsonObject* o, auto* p) {
      auto& d = *const_cast<std::remove_const_t<std::remove_pointer_t<decltype(p->data())>>*>(p->data());
      (*o)[str(d.name())] = facts(d);
    };
    for (gm::Gate* p : rows<gm::Gate>(0)) put(&g, p);
    for (gm::BasicEvent* p : rows<gm::BasicEvent>(1)) put(&b, p);
    for (gm::HouseEvent* p : rows<gm::HouseEvent>(2)) put(&h, p);
    auto* m = w_->findChild<QTreeView*>("modelTree")->model();
    QModelIndex top = m->index(0, 0);
    for (int i = 0; i < m->rowCount(top); ++i) {
      auto* ft = static_cast<mef::FaultTree*>(m->index(i, 0, top).data(Qt::UserRole).value<void*>());
      t[str(ft->name())] = facts(*ft);
    }
    return {{"title", w_->windowTitle()}, {"modified", w_->isWindowModified()},
            {"gate", g}, {"basic", b}, {"house", h}, {"ft", t}};
  }
  void problems(QStringList* out) override {
    auto set = [](auto v) { return std::set<typename decltype(v)::value_type>(v.begin(), v.end()); };
    check_rows<gm::Gate>("gates tab", views_[0]->model(), set(rows<gm::Gate>(0)), out, false);
    check_rows<gm::BasicEvent>("basic events tab", views_[1]->model(), set(rows<gm::BasicEvent>(1)), out, false);
    check_rows<gm::HouseEvent>("house events tab", views_[2]->model(), set(rows<gm::HouseEvent>(2)), out, false);
    auto* m = w_->findChild<QTreeView*>("modelTree")->model();
    QStringList got, want{QString("Fault Trees (%1)").arg(m->rowCount(m->index(0, 0))),
                          QString("Gates (%1)").arg(views_[0]->model()->rowCount()),
                          QString("Basic Events (%1)").arg(views_[1]->model()->rowCount()),
                          QString("House Events (%1)").arg(views_[2]->model()->rowCount())};
    for (int i = 0; i < 4; ++i) got << m->index(i, 0).data().toString();
    if (got != want)
      *out << QString("tree: [%1], not [%2]").arg(got.join("|"), want.join("|"));
    if (w_->isWindowModified() == stack()->isClean())
      *out << "the window is not marked as modified as the stack is";
  }
  void run(const QString& op, Fields& f) override {
    plan_.clear();
    while (f.more()) {
      QString s = f.next();
      int k = s.indexOf('=');
      if (k > 0) plan_[s.left(k)] = s.mid(k + 1);
    }
    done_ = opened_ = saved_ = false;
    if (op == "add") {
      action("actionAddElement")->trigger();
    } else if (op == "edit" || op == "remove") {
      int i = plan_["kind"] == "gate" ? 0 : plan_["kind"] == "basic" ? 1 : 2;
      QAbstractItemView* v = views_[i];
      tabs()->setCurrentWidget(v);
      QApplication::processEvents();
      QModelIndex index;
      for (int r = 0; r < v->model()->rowCount(); ++r)
        if (v->model()->index(r, 0).data().toString() == plan_["id"])
          index = v->model()->index(r, 0);
      if (!index.isValid())
        throw std::runtime_error("harness: no row for the event");
      if (op == "edit") {
        emit v->activated(index);
      } else {
        v->selectionModel()->select(index, QItemSelectionModel::ClearAndSelect | QItemSelectionModel::Rows);
        QAction* a = action("actionRemoveElement");
        if (!a->isEnabled())
          throw std::runtime_error("the element cannot be removed");
        a->trigger();
        v->selectionModel()->clear();
      }
    } else if (op == "name") {
      action("actionRenameModel")->trigger();
    } else if (op == "save") {
      if (action("actionSave")->isEnabled()) action("actionSave")->trigger();
    } else if (op == "saveas") {
      if (action("actionSaveAs")->isEnabled()) action("actionSaveAs")->trigger();
    } else if (op == "prefs") {
      action("actionPreferences")->trigger();
    } else if (op == "settings") {
      action("actionSettings")->trigger();
    } else if (op == "run") {
      action("actionRun")->trigger();
    } else if (op == "export") {
      QAction* a = action("actionExportReportAs");
      if (!a->isEnabled()) throw std::runtime_error("there is no report to export");
      a->trigger();
    } else if (op == "report") {
      report();
    } else if (op == "filter") {
      filter();
    } else if (op == "new") {
      action("actionNewModel")->trigger();
    } else if (op == "open") {
      action("actionOpenFiles")->trigger();
    } else if (op == "recent") {
      for (QAction* a : child<QMenu>(w_.get(), "menuRecentFiles")->actions())
        if (a->isVisible() && a->text() == plan_["which"]) { a->trigger(); break; }
    } else if (op == "forget") {
      action("actionClearList")->trigger();
    } else if (op == "autosave") {
      for (QTimer* t : w_->findChildren<QTimer*>(QString(), Qt::FindDirectChildrenOnly))
        if (t->isActive() && t->interval() >= 60000) QMetaObject::invokeMethod(t, "timeout", Qt::DirectConnection, QGenericReturnArgument());
    } else if (op == "quit") {
      out_["closed"] = w_->close();
      if (!w_->isVisible() && plan_["again"] == "1") w_->show();
    } else if (op == "project") {
      std::vector<std::string> files;
      for (const QString& s : plan_["files"].split('\n'))
        if (!s.isEmpty()) files.push_back(s.toStdString());
      try {
        out_["accepted"] = w_->setProjectFile(plan_["project"].toStdString(), files);
      } catch (const scram::Error& e) {
        out_["accepted"] = false;
        boxes << QJsonArray{"thrown", typeid(e).name(), e.what()};
      }
    } else {
      throw std::runtime_error("harness: no such request");
    }
  }

 private:
  static QJsonArray table(QAbstractItemModel* m) {
    QJsonArray rows, head;
    for (int c = 0; c < m->columnCount(); ++c)
      head << m->headerData(c, Qt::Horizontal).toString();
    rows << head;
    for (int i = 0; i < m->rowCount(); ++i) {
      QJsonArray r;
      for (int c = 0; c < m->columnCount(); ++c) {
        QVariant v = m->index(i, c).data();
        if (v.userType() == QMetaType::Double)
          r << QString::number(v.toDouble(), 'g', 17);
        else
          r << v.toString();
      }
      rows << r;
    }
    return rows;
  }
  // The results as the window shows them.
  void report() {
    auto* tree = child<QTreeView>(w_.get(), "reportTree");
    auto* m = tree->model();
    QJsonArray all;
    QStringList sort = plan_["sort"].split(':');
    for (int i = 0; m && i < m->rowCount(); ++i) {
      QModelIndex top = m->index(i, 0);
      emit tree->activated(top);
      QJsonArray kids;
      for (int k = 0; k < m->rowCount(top); ++k) {
        QModelIndex index = m->index(k, 0, top);
        int n = tabs()->count();
        emit tree->activated(index);
        QJsonObject e{{"text", index.data().toString()}};
        if (tabs()->count() == n + 1) {
          QWidget* w = tabs()->currentWidget();
          e["tab"] = tabs()->tabText(tabs()->currentIndex());
          if (tabs()->indexOf(w) != n) e["tab"] = "not the current tab";
          auto* v = qobject_cast<QTableView*>(w);
          if (!v) throw std::runtime_error("no table of results");
          QApplication::processEvents();
          e["rows"] = table(v->model());
          if (sort.size() == 2 && sort[0].toInt() < v->model()->columnCount()) {
            v->sortByColumn(sort[0].toInt(), sort[1] == "d" ? Qt::DescendingOrder : Qt::AscendingOrder);
            e["sorted"] = table(v->model());
          }
          if (plan_.count("find")) e["found"] = search(v->model());
          if (plan_["keep"] != "1") emit tabs()->tabCloseRequested(tabs()->indexOf(w));
        } else if (tabs()->count() != n) {
          e["tab"] = "several tabs";
        }
        kids << e;
      }
      all << QJsonArray{top.data().toString(), kids};
    }
    out_["report"] = all;
  }
  QJsonArray search(QAbstractItemModel* m) {
    QLineEdit* bar = nullptr;
    for (QLineEdit* l : w_->statusBar()->findChildren<QLineEdit*>()) bar = l;
    if (!bar) throw std::runtime_error("harness: no search bar");
    if (bar->isHidden()) throw std::runtime_error("no search for a table");
    bar->setText(plan_["find"]);
    emit bar->editingFinished();
    QJsonArray r = table(m);
    bar->setText("");
    emit bar->editingFinished();
    return r;
  }
  void filter() {
    int i = plan_["kind"] == "gate" ? 0 : plan_["kind"] == "basic" ? 1 : 2;
    tabs()->setCurrentWidget(views_[i]);
    QApplication::processEvents();
    auto* m = views_[i]->model();
    QStringList sort = plan_["sort"].split(':');
    if (sort.size() == 2 && sort[0].toInt() < m->columnCount()) {
      m->sort(sort[0].toInt(), sort[1] == "d" ? Qt::DescendingOrder : Qt::AscendingOrder);
      out_["sorted"] = table(m);
    }
    if (plan_.count("find")) out_["found"] = search(m);
    out_["rows"] = table(m);
  }
  void settings(QDialog* d) {
    QJsonArray seen;
    auto dump = [&] {
      auto on = [&](const char* n) { return child<QAbstractButton>(d, n)->isChecked(); };
      QJsonObject o;
      int algorithms = 0, kinds = 0;
      for (const char* n : {"bdd", "zbdd", "mocus"})
        if (on(n)) { o["algorithm"] = n; ++algorithms; }
      for (const char* n : {"rareEvent", "mcub"})
        if (on(n)) { o["kind"] = n; ++kinds; }
      if (algorithms != 1 || kinds != 1) o["algorithm"] = "not one";
      o["pi"] = on("primeImplicants");
      o["prob"] = on("probability");
      o["imp"] = on("importance");
      o["approx"] = child<QGroupBox>(d, "approximationsBox")->isChecked();
      o["order"] = child<QSpinBox>(d, "productOrder")->value();
      o["time"] = child<QDoubleSpinBox>(d, "missionTime")->value();
      seen << o;
    };
    dump();
    for (const QString& s : plan_["do"].split(',', Qt::SkipEmptyParts)) {
      QStringList p = s.split(':');
      if (p[0] == "order") {
        child<QSpinBox>(d, "productOrder")->setValue(p[1].toInt());
      } else if (p[0] == "time") {
        child<QDoubleSpinBox>(d, "missionTime")->setValue(p[1].toDouble());
      } else if (p[0] == "approximationsBox") {
        child<QGroupBox>(d, "approximationsBox")->setChecked(p[1] == "1");
      } else if (p[0] == "rareEvent" || p[0] == "mcub") {
        auto* b = child<QAbstractButton>(d, p[0].toUtf8());
        if (b->isEnabled()) b->click();
      } else {
        auto* b = child<QAbstractButton>(d, p[0].toUtf8());
        if (p.size() < 2 || b->isChecked() != (p[1] == "1")) b->click();
      }
      dump();
    }
    out_["settings"] = seen;
  }
  // Answers what the dialog shows, and sets the limit of the history and the minutes to a save.
  void preferences(QDialog* d) {
    const char* names[][3] = {{"undo", "checkUndoLimit", "undoLimitBox"},
                              {"auto", "checkAutoSave", "autoSaveBox"}};
    for (auto& n : names) {
      auto* on = child<QCheckBox>(d, n[1]);
      auto* box = child<QSpinBox>(d, n[2]);
      out_[n[0]] = on->isChecked() ? box->value() : 0;
      if (on->isChecked() != box->isEnabled()) out_[n[0]] = "a wrong field";
      if (!plan_.count(n[0])) continue;
      int v = plan_[n[0]].toInt();
      if (v) box->setValue(v);
      if (on->isChecked() != (v > 0)) on->click();
    }
  }
  QTabWidget* tabs() { return w_->findChild<QTabWidget*>("tabWidget"); }
  QAction* action(const char* n) {
    auto* a = w_->findChild<QAction*>(n);
    if (!a) throw std::runtime_error(std::string("harness: no action ") + n);
    return a;
  }
  template <class T>
  std::vector<T*> rows(int i) {
    std::vector<T*> r;
    auto* m = views_[i]->model();
    for (int k = 0; k < m->rowCount(); ++k)
      r.push_back(static_cast<T*>(m->index(k, 0).data(Qt::UserRole).value<void*>()));
    return r;
  }
  template <class T>
  T* child(QWidget* w, const char* n) {
    auto* c = w->findChild<T*>(n);
    if (!c) throw std::runtime_error(std::string("harness: no widget ") + n);
    return c;
  }
  // Types a text key by key, as far as the field lets.
  void type(QLineEdit* l, const QString& s) {
    l->clear();
    for (QChar c : s) {
      QKeyEvent down(QEvent::KeyPress, 0, Qt::NoModifier, QString(c));
      QApplication::sendEvent(l, &down);
    }
  }
  void modal() {
    QWidget* w = QApplication::activeModalWidget();
    if (!w || busy_ == w) return;
    busy_ = w;
    try {
      if (auto* d = qobject_cast<EventDialog*>(w)) {
        if (done_) { d->reject(); busy_ = nullptr; return; }
        done_ = true;
        fill(d);
        auto* ok = child<QDialogButtonBox>(d, "buttonBox")->button(QDialogButtonBox::Ok);
        bool can = ok->isEnabled();
        boxes << QJsonArray{"dialog", can ? "accepted" : "refused",
                            child<QLineEdit>(d, "nameLine")->text()};
        busy_ = nullptr;
        if (can) ok->click(); else d->reject();
        return;
      }
      if (qobject_cast<QProgressDialog*>(w)) {
        busy_ = nullptr;
        return;
      }
      if (auto* d = qobject_cast<scram::gui::SettingsDialog*>(w)) {
        settings(d);
        busy_ = nullptr;
        auto* b = child<QDialogButtonBox>(d, "buttonBox")->button(
            plan_["accept"] == "1" ? QDialogButtonBox::Ok : QDialogButtonBox::Cancel);
        if (b) b->click(); else d->reject();
        return;
      }
      if (auto* d = qobject_cast<QFileDialog*>(w)) {
        int seen = d->property("seen").toInt();
        d->setProperty("seen", seen + 1);
        if (seen) {  // The acceptance is on its way.
          busy_ = nullptr;
          if (seen > 1000) d->reject();
          return;
        }
        boxes << QJsonArray{"files", d->acceptMode() == QFileDialog::AcceptOpen ? "open" : "save", ""};
        auto* bb = d->findChild<QDialogButtonBox*>();
        QAbstractButton* b = nullptr;
        if (d->acceptMode() == QFileDialog::AcceptOpen) {
          QStringList names;
          for (const QString& s : plan_["open"].split('\n', Qt::SkipEmptyParts)) names << '"' + s + '"';
          d->findChild<QLineEdit*>("fileNameEdit")->setText(names.join(' '));
          b = names.isEmpty() || !bb ? nullptr : bb->button(QDialogButtonBox::Open);
        } else if (!plan_["path"].isEmpty()) {
          d->findChild<QLineEdit*>("fileNameEdit")->setText(plan_["path"]);
          b = bb ? bb->button(QDialogButtonBox::Save) : nullptr;
        }
        busy_ = nullptr;
        bool& once = d->acceptMode() == QFileDialog::AcceptOpen ? opened_ : saved_;
        if (b && !once) { once = true; QMetaObject::invokeMethod(d, "accept", Qt::QueuedConnection); }
        else d->reject();
        return;
      }
      if (auto* d = qobject_cast<QMessageBox*>(w)) {
        boxes << QJsonArray{"box", d->windowTitle(), d->text() + " " + d->informativeText()};
        busy_ = nullptr;
        if (plan_.count("answer")) {
          QAbstractButton* a = d->button(plan_["answer"] == "save" ? QMessageBox::Save :
                                         plan_["answer"] == "discard" ? QMessageBox::Discard : QMessageBox::Cancel);
          if (a) { a->click(); return; }
        }
        QAbstractButton* y = d->button(QMessageBox::Yes);
        if (!y) y = d->button(QMessageBox::Discard);
        if (y) y->click(); else d->done(0);
        return;
      }
      if (auto* d = qobject_cast<QDialog*>(w); d && d->findChild<QCheckBox*>("checkUndoLimit")) {
        preferences(d);
        busy_ = nullptr;
        d->reject();
        return;
      }
      if (auto* d = qobject_cast<QDialog*>(w)) {
        if (auto* l = d->findChild<QLineEdit*>("nameLine")) {
          type(l, plan_["name"]);
          auto* ok = child<QDialogButtonBox>(d, "buttonBox")->button(QDialogButtonBox::Ok);
          bool can = ok->isEnabled();
          boxes << QJsonArray{"dialog", can ? "accepted" : "refused", l->text()};
          busy_ = nullptr;
          if (can) ok->click(); else d->reject();
          return;
        }
        busy_ = nullptr;
        d->reject();
      }
    } catch (const std::exception& e) {
      busy_ = nullptr;
      boxes << QJsonArray{"harness", e.what(), ""};
      if (auto* d = qobject_cast<QDialog*>(w)) d->reject();
    }
    busy_ = nullptr;
  }
  void fill(EventDialog* d) {
    auto has = [this](const char* k) { return plan_.count(k); };
    if (has("type")) {
      auto* box = child<QComboBox>(d, "typeBox");
      int i = plan_["type"].toInt();
      if (static_cast<QListView*>(box->view())->isRowHidden(i))
        boxes << QJsonArray{"hidden", plan_["type"], ""};
      else
        box->setCurrentIndex(i);
    }
    if (has("name")) type(child<QLineEdit>(d, "nameLine"), plan_["name"]);
    if (has("label")) child<QPlainTextEdit>(d, "labelText")->setPlainText(plan_["label"]);
    if (has("state")) child<QComboBox>(d, "stateBox")->setCurrentIndex(plan_["state"].toInt());
    if (has("expr")) {
      auto* box = child<QGroupBox>(d, "expressionBox");
      QStringList p = plan_["expr"].split(' ');
      box->setChecked(p[0] != "none");
      if (p[0] != "none") {
        child<QComboBox>(d, "expressionType")->setCurrentIndex(p[0] == "const" ? 0 : 1);
        type(child<QLineEdit>(d, p[0] == "const" ? "constantValue" : "exponentialRate"), p[1]);
      }
    }
    if (has("args")) {  // The arguments, removing all others.
      auto* list = child<QListWidget>(d, "argsList");
      while (list->count()) {
        list->setCurrentRow(0);
        int n = list->count();
        child<QPushButton>(d, "removeArgButton")->click();
        if (list->count() >= n) break;
      }
      for (const QString& s : plan_["args"].split(' ')) {
        if (s.isEmpty()) continue;
        type(child<QLineEdit>(d, "addArgLine"), s);
        child<QPushButton>(d, "addArgButton")->click();
      }
    }
    if (has("conn")) {
      const char* order[] = {"and", "or", "atleast", "xor", "not", "nand", "nor", "null"};
      auto* box = child<QComboBox>(d, "connectiveBox");
      QString want = plan_["conn"];
      static const std::map<QString, QStringList> text{
          {"and", {"and"}}, {"or", {"or"}}, {"atleast", {"at-least", "atleast", "at least", "vote"}},
          {"xor", {"xor"}}, {"not", {"not"}}, {"nand", {"nand"}}, {"nor", {"nor"}},
          {"null", {"null", "pass-through"}}};
      bool found = false;
      for (int i = 0; i < box->count(); ++i)
        if (text.at(want).contains(box->itemText(i).toLower())) {
          box->setCurrentIndex(i);
          found = true;
        }
      if (!found) throw std::runtime_error("harness: no such connective in the list");
      (void)order;
    }
    if (has("min")) child<QSpinBox>(d, "minNumberBox")->setValue(plan_["min"].toInt());
    if (has("ft")) {
      auto* l = child<QLineEdit>(d, "containerFaultTreeName");
      if (l->isEnabled()) type(l, plan_["ft"]);
    }
  }

  std::unique_ptr<MainWindow> w_;
  QPointer<QAbstractItemView> views_[3];
  QJsonObject out_;
  std::map<QString, QString> plan_;
  QTimer timer_;
  QWidget* busy_ = nullptr;
  bool done_ = false, opened_ = false, saved_ = false;
};

QString unescape(const QString& s) {
  return QUrl::fromPercentEncoding(s.toUtf8());
}

}  // namespace

int main(int argc, char* argv[]) {
  qputenv("QT_QPA_PLATFORM", "offscreen");
  signal(SIGXFSZ, SIG_IGN);
  qInstallMessageHandler(handler);
  QApplication app(argc, argv);
  QApplication::setQuitOnLastWindowClosed(false);
  QCoreApplication::setOrganizationName("verif");
  QCoreApplication::setApplicationName("guidrv");
  std::unique_ptr<Op> env;
  // No message box waits for an answer.
  QTimer closer;
  closer.setInterval(0);
  QObject::connect(&closer, &QTimer::timeout, &closer, [&env] {
    if (dynamic_cast<Win*>(env.get())) return;
    if (auto* d = qobject_cast<QMessageBox*>(QApplication::activeModalWidget()))
      d->done(0);
  });
  closer.start();
  std::string line;
  while (std::getline(std::cin, line)) {
    Fields f;
    for (const QString& s : str(line).split('\t'))
      f.f << unescape(s);
    QString op = f.next();
    QJsonObject r;
    if (env) {
      env->notes = {};
      env->boxes = {};
    }
    messages.clear();
    try {
      if (op == "lab" || op == "win") {
        env.reset();
        QString file = f.next();
        if (op == "lab")
          env = std::make_unique<Lab>(file, f.next().toInt());
        else
          env = std::make_unique<Win>(file);
      } else if (op == "read") {
        r["read"] = snapshot(*read_model(f.next()));
      } else if (op == "limit") {  // The size of files, as if the disk were full.
        rlimit l;
        getrlimit(RLIMIT_FSIZE, &l);
        int n = f.next().toInt();
        l.rlim_cur = n < 0 ? l.rlim_max : rlim_t(n);
        setrlimit(RLIMIT_FSIZE, &l);
      } else if (op == "close") {
        env.reset();
      } else if (!env) {
        throw std::runtime_error("harness: no case is open");
      } else if (op == "undo") {
        env->stack()->undo();
      } else if (op == "redo") {
        env->stack()->redo();
      } else if (op == "index") {
        env->stack()->setIndex(f.next().toInt());
      } else if (op == "clean") {
        env->stack()->setClean();
      } else {
        env->run(op, f);
      }
    } catch (const scram::Error& e) {
      r["error"] = e.what();
      r["class"] = typeid(e).name();
    } catch (const std::exception& e) {
      r["error"] = e.what();
      r["class"] = "std";
    }
    QApplication::processEvents();
    if (env) {
      r["state"] = env->state();
      QStringList p;
      env->problems(&p);
      r["problems"] = QJsonArray::fromStringList(p);
      env->extra(&r);
      r["notes"] = env->notes;
      r["boxes"] = env->boxes;
      QUndoStack* s = env->stack();
      r["index"] = s->index();
      r["count"] = s->count();
      r["clean"] = s->isClean();
    }
    r["messages"] = QJsonArray::fromStringList(messages);
    std::cout << QJsonDocument(r).toJson(QJsonDocument::Compact).constData() << std::endl;
  }
  env.reset();
  return 0;
}
