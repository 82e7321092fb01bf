// service_locator: two interfaces, services that derive from them in different ways
#include <teiacare/sdk/service_locator.hpp>
#include <string>

struct Svc
{
    virtual ~Svc();
    virtual void x() = 0;
};
struct Other
{
    virtual ~Other();
    virtual int y() = 0;
};
struct SvcImpl : Svc
{
    SvcImpl(int, const std::string&);
    void x() override;
};
struct Both : Other, Svc
{
    void x() override;
    int y() override;
};
void f_loc(tc::sdk::service_locator& l, const tc::sdk::service_locator& c, std::shared_ptr<Svc> s, std::shared_ptr<Other> o, std::shared_ptr<SvcImpl> i)
{
    l.register_service<Svc, SvcImpl>(1, std::string());
    l.register_service<Svc, Both>();
    l.register_service<Other, Both>();
    l.register_instance<Svc>(s);
    l.register_instance<Other>(o);
    l.register_instance<SvcImpl>(i);
    l.unregister<Svc>();
    l.unregister<Other>();
    l.is_registered<Svc>();
    l.is_registered<Other>();
    c.get<Svc>();
    c.get<Other>();
    c.get<SvcImpl>();
}

// Laws: every ensure() must be true on every path, whatever the locator holds before.
void ensure(bool, const char*);
using L = tc::sdk::service_locator;

namespace l01
{
void instance()
{
    ensure(&L::instance() == &L::instance(), "there is one instance");
}
void register_instance(L& l, std::shared_ptr<Svc> s)
{
    const bool had = l.is_registered<Svc>();
    const bool other = l.is_registered<Other>();
    const bool impl = l.is_registered<SvcImpl>();
    ensure(l.register_instance<Svc>(s) == !had, "succeeds exactly if nothing was registered under the type");
    ensure(l.is_registered<Svc>(), "is registered afterwards");
    ensure(l.is_registered<Other>() == other && l.is_registered<SvcImpl>() == impl, "other types are unaffected");
    ensure(!l.register_instance<Svc>(s), "a second registration is refused");
}
void register_service(L& l)
{
    const bool had = l.is_registered<Svc>();
    const bool other = l.is_registered<Other>();
    ensure(l.register_service<Svc, Both>() == !had, "succeeds exactly if nothing was registered under the interface");
    ensure(l.is_registered<Svc>(), "is registered afterwards");
    ensure(l.is_registered<Other>() == other, "other interfaces of the service are unaffected");
    ensure(!(l.register_service<Svc, SvcImpl>(1, std::string())), "a second registration is refused");
}
void register_two(L& l)
{
    const bool had = l.is_registered<Other>();
    l.register_service<Svc, Both>();
    ensure(l.register_service<Other, Both>() == !had, "the same service can be registered under several interfaces");
    ensure(l.is_registered<Svc>() && l.is_registered<Other>(), "both are registered");
}
void unregister(L& l)
{
    const bool had = l.is_registered<Svc>();
    const bool other = l.is_registered<Other>();
    ensure(l.unregister<Svc>() == had, "reports whether something was registered");
    ensure(!l.is_registered<Svc>(), "is not registered afterwards");
    ensure(l.is_registered<Other>() == other, "other types are unaffected");
    ensure(!l.unregister<Svc>(), "a second removal is refused");
}
void again(L& l, std::shared_ptr<Svc> s)
{
    l.unregister<Svc>();
    ensure(l.register_instance<Svc>(s), "a type can be registered again after its removal");
    ensure(l.is_registered<Svc>(), "is registered afterwards");
}
void queries(const L& c, L& l)
{
    const bool had = l.is_registered<Svc>();
    static_cast<void>(c.get<Svc>());
    l.get<Svc>();
    ensure(l.is_registered<Svc>() == had, "a query registers nothing");
    ensure(had || l.get<Svc>() == nullptr, "nothing is found under a type that is not registered");
}
}

namespace l02
{
void register_instance(L& l, std::shared_ptr<Svc> s)
{
    const bool had = l.is_registered<Svc>();
    const auto before = l.get<Svc>();
    const auto other = l.get<Other>();
    l.register_instance<Svc>(s);
    if (had)
        ensure(l.get<Svc>() == before, "a registered service is not replaced");
    else
        ensure(l.get<Svc>() == s, "the registered instance is found");
    ensure(l.get<Other>() == other, "other types are unaffected");
}
void register_derived(L& l, std::shared_ptr<SvcImpl> s)
{
    const bool had = l.is_registered<SvcImpl>();
    const auto svc = l.get<Svc>();
    l.register_instance<SvcImpl>(s);
    ensure(had || l.get<SvcImpl>() == s, "an instance can be registered under its own type");
    ensure(l.get<Svc>() == svc, "a base class is another type");
}
void register_const(L& l, const std::shared_ptr<Other> s)
{
    const bool had = l.is_registered<Other>();
    l.register_instance<Other>(s);
    ensure(had || l.get<Other>() == s, "the registered instance is found");
}
void register_service(L& l)
{
    const bool had = l.is_registered<Svc>();
    const auto before = l.get<Svc>();
    const auto other = l.get<Other>();
    l.register_service<Svc, Both>();
    if (had)
        ensure(l.get<Svc>() == before, "a registered service is not replaced");
    else
        ensure(l.get<Svc>() != nullptr, "the created service is found");
    ensure(l.get<Svc>() == l.get<Svc>(), "the same object is found every time");
    ensure(l.get<Other>() == other, "other interfaces of the service are unaffected");
}
void register_service_args(L& l)
{
    const bool had = l.is_registered<Svc>();
    l.register_service<Svc, SvcImpl>(1, std::string());
    ensure(had || l.get<Svc>() != nullptr, "the created service is found");
}
void unregister(L& l, std::shared_ptr<Svc> s)
{
    const auto other = l.get<Other>();
    l.unregister<Svc>();
    ensure(l.get<Svc>() == nullptr, "a removed service is not found");
    ensure(l.get<Other>() == other, "other types are unaffected");
    l.register_instance<Svc>(s);
    ensure(l.get<Svc>() == s, "after its removal a service can be replaced");
}
}
