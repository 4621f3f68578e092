#include <QJsonArray>
#include <QJsonObject>
#include <QJsonValue>
#include <valijson/adapters/qtjson_adapter.hpp>
#include "../adimpl.hpp"
typedef QJsonValue D; typedef valijson::adapters::QtJsonAdapter A;
static QString qs(const std::string &s) { return QString::fromUtf8(s.data(), (qsizetype)s.size()); }
static D mkv(const J &j) {
    switch (j.t) {
    case J::Null: return D(); case J::Bool: return D(j.b); case J::Int: return D((qint64)j.i); case J::Dbl: return D(j.d); case J::Str: return D(qs(j.s));
    case J::Arr: { QJsonArray a; for (auto &x : j.a) a.append(mkv(x)); return a; }
    default: { QJsonObject o; for (auto &m : j.o) o.insert(qs(m.first), mkv(m.second)); return o; }
    }
}
static void put(D &d, const J &j) { d = mkv(j); }
static J take(const D &v) {
    if (v.isNull()) return J(); if (v.isBool()) return J(v.toBool());
    if (v.isDouble()) { if (v.toInteger(0) == v.toInteger(1)) return J((long long)v.toInteger()); return J(v.toDouble()); }
    if (v.isString()) return J(v.toString().toUtf8().toStdString());
    if (v.isArray()) { J r = J::arr(); for (const D x : v.toArray()) r.push(take(x)); return r; }
    J r = J::obj(); QJsonObject o = v.toObject(); for (auto it = o.begin(); it != o.end(); ++it) r.o.emplace_back(it.key().toUtf8().toStdString(), take(it.value())); return r;
}
static AdReg reg(adimpl::make<A, D>("qtjson", true, put, take, adimpl::anyJ));
