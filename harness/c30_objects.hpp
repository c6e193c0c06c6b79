// C30: objects with properties declared with the macros (run through moc)
#pragma once

#include <lager/extra/qt.hpp>

#include <QObject>
#include <QString>

#include <tuple>

#ifndef Q_MOC_RUN
#include <lager/lenses.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>
#endif

namespace c30 {

struct point
{
    int x = 0, y = 0;
    friend bool operator==(const point& a, const point& b)
    {
        return a.x == b.x && a.y == b.y;
    }
    friend bool operator!=(const point& a, const point& b) { return !(a == b); }
};

struct st
{
    int num = 0;
    QString text;
    bool flag   = false;
    double real = 0;
    point where;
    friend bool operator==(const st& a, const st& b)
    {
        return a.num == b.num && a.text == b.text && a.flag == b.flag &&
               a.real == b.real && a.where == b.where;
    }
    friend bool operator!=(const st& a, const st& b) { return !(a == b); }
};

class shown : public QObject
{
    Q_OBJECT

public:
    LAGER_QT_CONST(int, id);
    LAGER_QT_CONST(QString, title);
    LAGER_QT_READER(int, num);
    LAGER_QT_READER(QString, text);
    LAGER_QT_READER(bool, flag);
    LAGER_QT_READER(double, real);
    LAGER_QT_READER(c30::point, where);
    LAGER_QT_READER(int, half);

    template <typename Reader, typename Half>
    shown(int i, QString t, Reader r, Half h)
        : LAGER_QT(id){i}
        , LAGER_QT(title){t}
        , LAGER_QT(num){r[&st::num]}
        , LAGER_QT(text){r[&st::text]}
        , LAGER_QT(flag){r[&st::flag]}
        , LAGER_QT(real){r[&st::real]}
        , LAGER_QT(where){r[&st::where]}
        , LAGER_QT(half){h}
    {}
};

class edited : public QObject
{
    Q_OBJECT

public:
    LAGER_QT_CURSOR(int, num);
    LAGER_QT_CURSOR(QString, text);
    LAGER_QT_CONST(int, id);
    LAGER_QT_CURSOR(bool, flag);
    LAGER_QT_CURSOR(double, real);
    LAGER_QT_CURSOR(c30::point, where);
    LAGER_QT_READER(int, half);
    LAGER_QT_CONST(QString, title);

    template <typename Half>
    edited(int i, QString t, lager::cursor<st> r, Half h)
        : LAGER_QT(num){r[&st::num]}
        , LAGER_QT(text){r[&st::text]}
        , LAGER_QT(id){i}
        , LAGER_QT(flag){r[&st::flag]}
        , LAGER_QT(real){r[&st::real]}
        , LAGER_QT(where){r[&st::where]}
        , LAGER_QT(half){h}
        , LAGER_QT(title){t}
    {}
};

} // namespace c30

Q_DECLARE_METATYPE(c30::point)
