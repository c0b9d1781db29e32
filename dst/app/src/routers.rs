use crate::configure;
use crate::ops::{self, H};
use rustful::handler::*;
use rustful::server::Listening;
use rustful::context::hypermedia::Link;
use rustful::{ContentFactory, Context, CreateContent, DefaultRouter, Handler, Method, OrElse, Response, StatusCode, StatusRouter};
use simproto::*;
use std::sync::Arc;

pub fn start(sc: &'static Scenario) -> Result<Listening, String> {
    let r = &sc.router;
    match r.kind {
        RouterKind::Bare => {
            let id = r.routes.get(0).map_or(0, |r| r.hid);
            if r.group {
                // a function, as in the simplest examples
                return configure(sc, move |context: Context, response: Response| ops::run(id, context, response));
            }
            configure(sc, H { id })
        }
        RouterKind::Default => {
            let router = if r.from_iter {
                let mut router: DefaultRouter<H> = r.routes.iter().map(|r| (method(&r.method), full(r), H { id: r.hid })).collect();
                router.find_hyperlinks = r.hyperlinks;
                router
            } else {
                default_router(r, |id| H { id })
            };
            configure(sc, router)
        }
        RouterKind::Boxed => configure(sc, default_router(r, |id| Box::new(H { id }) as Box<dyn Handler>)),
        RouterKind::Arced => configure(sc, default_router(r, |id| Arc::new(H { id }))),
        RouterKind::Content if r.group => {
            fn mk(id: u32) -> impl Fn(Context) -> ops::Out + Send + Sync + 'static {
                move |context: Context| ops::content(id, context)
            }
            fn router_of<T: CreateContent>(r: &RouterSpec, mk: impl Fn(u32) -> T) -> TreeRouter<MethodRouter<Variables<ContentFactory<T>>>> {
                let mut router = TreeRouter::<MethodRouter<Variables<ContentFactory<T>>>>::new();
                router.find_hyperlinks = r.hyperlinks;
                add_method_routes(&mut router, &r.routes.iter().collect::<Vec<_>>(), true, false, mk);
                router
            }
            configure(sc, router_of(r, mk))
        }
        RouterKind::Content => {
            let mut router = TreeRouter::<MethodRouter<Variables<ContentFactory<Content>>>>::new();
            router.find_hyperlinks = r.hyperlinks;
            add_method_routes(&mut router, &r.routes.iter().collect::<Vec<_>>(), r.group, false, |id| Content { id });
            configure(sc, router)
        }
        RouterKind::TreeOpt => {
            let mut router = TreeRouter::<Option<Variables<Tagged<Picky>>>>::new();
            router.find_hyperlinks = r.hyperlinks;
            for route in &r.routes {
                add_opt(&mut router, route, r.tag);
            }
            configure(sc, router)
        }
        RouterKind::OrElseStatus => {
            let mut router = if r.group {
                let mut router = OrElse::<DefaultRouter<H>, StatusRouter<H>>::with_secondary(StatusRouter::new());
                router.primary = default_router(r, |id| H { id });
                router
            } else {
                OrElse::<DefaultRouter<H>, StatusRouter<H>>::with_primary(default_router(r, |id| H { id }))
            };
            for &(s, hid, i) in &r.fallbacks {
                if r.group && i % 3 == 0 {
                    let mut other = OrElse::<DefaultRouter<H>, StatusRouter<H>>::default();
                    other.secondary.insert(StatusCode::from_u16(s), H { id: hid });
                    router.merge(other);
                } else if r.group && i % 3 == 1 {
                    router.build().many(|b| {
                        b.secondary().many(|b| b.on(StatusCode::from_u16(s), H { id: hid }));
                    });
                } else if i % 2 == 0 {
                    router.build().secondary().on(StatusCode::from_u16(s), H { id: hid });
                } else {
                    router.secondary.insert(StatusCode::from_u16(s), H { id: hid });
                }
            }
            configure(sc, router)
        }
        RouterKind::MethodTree => {
            let mut router = MethodRouter::<TreeRouter<Option<Variables<Tagged<Picky>>>>>::new();
            for route in &r.routes {
                if route.via == BuildVia::Merge {
                    let mut tree = TreeRouter::<Option<Variables<Tagged<Picky>>>>::new();
                    tree.build().path(full(route)).handler(H { id: route.hid });
                    let mut other = MethodRouter::<TreeRouter<Option<Variables<Tagged<Picky>>>>>::new();
                    other.insert(method(&route.method), tree);
                    router.get_builder(tagged(r.tag)).merge(other);
                    continue;
                }
                let mut b = router.get_builder(tagged(r.tag));
                let mut tree = match &route.method[..] {
                    "GET" => b.get::<H>(),
                    "POST" => b.post::<H>(),
                    "PUT" => b.put::<H>(),
                    "PATCH" => b.patch::<H>(),
                    "DELETE" => b.delete::<H>(),
                    "OPTIONS" => b.options::<H>(),
                    "HEAD" => b.head::<H>(),
                    "CONNECT" => b.connect::<H>(),
                    _ => b.method::<H>(method(&route.method)),
                };
                tree.path(full(route)).handler(H { id: route.hid });
            }
            configure(sc, router)
        }
        RouterKind::TreeOrElse => {
            let mut router = Fallbacks::new();
            router.find_hyperlinks = r.hyperlinks;
            for i in 0..r.routes.len() {
                add_or_else(&mut router, r, i);
            }
            configure(sc, router)
        }
        RouterKind::TwoTrees => {
            let h = |id| H { id };
            if r.group {
                let mut router = OrElse::<DefaultRouter<H>, DefaultRouter<H>>::default();
                router.primary.find_hyperlinks = r.hyperlinks;
                router.secondary.find_hyperlinks = r.hyperlinks;
                for route in &r.routes {
                    let mut other = OrElse::<DefaultRouter<H>, DefaultRouter<H>>::default();
                    add_method_routes(if route.second { &mut other.secondary } else { &mut other.primary }, &[route], false, false, h);
                    router.merge(other);
                }
                return configure(sc, router);
            }
            configure(sc, OrElse::new(tree_of(r, false, h), tree_of(r, true, h)))
        }
        RouterKind::StatusTree => {
            let mut router = OrElse::<DefaultRouter<H>, StatusRouter<TreeRouter<Option<Variables<H>>>>>::with_primary(default_router(r, |id| H { id }));
            for &(s, hid, i) in &r.fallbacks {
                let mut b = router.build();
                let mut n = b.secondary();
                n.status(StatusCode::from_u16(s)).path(full(&r.routes[i])).handler(H { id: hid });
            }
            configure(sc, router)
        }
        RouterKind::Mount => {
            let h = |id| H { id };
            configure(sc, Mount { inner: tree_of(r, true, h), outer: tree_of(r, false, h) })
        }
        RouterKind::TreeInTree => {
            let mut router = TreeRouter::<MethodRouter<TreeRouter<Option<Variables<Tagged<Picky>>>>>>::new();
            add_method_routes(&mut router, &r.routes.iter().collect::<Vec<_>>(), r.group, r.tag, |id| H { id });
            configure(sc, router)
        }
        RouterKind::OptMethod => {
            let mut router = TreeRouter::<MethodRouter<Option<Variables<Tagged<Picky>>>>>::new();
            router.find_hyperlinks = r.hyperlinks;
            add_method_routes(&mut router, &r.routes.iter().collect::<Vec<_>>(), r.group, r.tag, |id| H { id });
            configure(sc, router)
        }
        RouterKind::MethodOrElse => {
            let mut router = TreeRouter::<MethodRouter<MaybeElse>>::new();
            for i in 0..r.routes.len() {
                add_maybe_else(&mut router, r, i);
            }
            configure(sc, router)
        }
        RouterKind::TreeDefault => {
            let mut router = TreeRouter::<Variables<H>>::new();
            router.find_hyperlinks = r.hyperlinks;
            for route in &r.routes {
                add_opt(&mut router, route, r.tag);
            }
            configure(sc, router)
        }
        RouterKind::TreePlain => {
            let mut router = TreeRouter::<Option<H>>::new();
            router.find_hyperlinks = r.hyperlinks;
            for route in &r.routes {
                add_opt(&mut router, route, r.tag);
            }
            configure(sc, router)
        }
    }
}

pub struct Content {
    id: u32,
}

impl CreateContent for Content {
    type Output = ops::Out;
    fn create_content(&self, context: Context) -> ops::Out {
        ops::content(self.id, context)
    }
}

fn method(m: &str) -> Method {
    m.parse().expect("method")
}

fn full(r: &Route) -> String {
    join(&r.path)
}

fn join(p: &[String]) -> String {
    let mut s = String::new();
    for seg in p {
        s.push('/');
        s.push_str(seg);
    }
    s
}

fn default_router<T: Handler>(r: &RouterSpec, mk: impl Fn(u32) -> T) -> DefaultRouter<T> {
    tree_of(r, false, mk)
}

fn tree_of<T: Handler>(r: &RouterSpec, second: bool, mk: impl Fn(u32) -> T) -> DefaultRouter<T> {
    let mut router = DefaultRouter::<T>::new();
    router.find_hyperlinks = r.hyperlinks;
    let routes: Vec<&Route> = r.routes.iter().filter(|r| r.second == second).collect();
    add_method_routes(&mut router, &routes, r.group, false, mk);
    router
}

fn add_method_routes<T, U>(router: &mut TreeRouter<MethodRouter<U>>, routes: &[&Route], group: bool, tag: bool, mk: impl Fn(u32) -> T)
where
    U: FromHandler<T> + ApplyContext + Merge + 'static,
{
    let mut i = 0;
    while i < routes.len() {
        let route = routes[i];
        let m = method(&route.method);
        let (a, z) = route.path.split_at(route.split.min(route.path.len()));
        match route.via {
            BuildVia::OnRoute => {
                let mut h = Some(mk(route.hid));
                router.get_builder(tagged(tag)).path(full(route)).then().many(|n| n.on(m, h.take().unwrap()));
            }
            BuildVia::Path => router.get_builder(tagged(tag)).path(full(route)).then().on(m, mk(route.hid)),
            BuildVia::ThenMerge => {
                let mut other = MethodRouter::<U>::new();
                other.build().on(m, mk(route.hid));
                router.get_builder(tagged(tag)).path(full(route)).then().merge(other);
            }
            BuildVia::Nested => {
                let mut b = router.get_builder(tagged(tag));
                let mut n = b.path(join(a));
                n.path(join(z)).then().on(m, mk(route.hid));
            }
            BuildVia::Merge => {
                let mut other = TreeRouter::<MethodRouter<U>>::new();
                other.build().path(join(z)).then().on(m, mk(route.hid));
                while group && i + 1 < routes.len() {
                    let r = routes[i + 1];
                    let (a2, z2) = r.path.split_at(r.split.min(r.path.len()));
                    if r.via != BuildVia::Merge || a2 != a {
                        break;
                    }
                    other.build().path(join(z2)).then().on(method(&r.method), mk(r.hid));
                    i += 1;
                }
                router.get_builder(tagged(tag)).path(join(a)).merge(other);
            }
            BuildVia::GetPath => {
                let p = full(route);
                let mut b = router.get_builder(tagged(tag));
                let found = match b.get_path(&p) {
                    Some(_) => true,
                    None => false,
                };
                if found {
                    b.get_path(&p).unwrap().then().on(m, mk(route.hid));
                } else {
                    b.path(&p).then().on(m, mk(route.hid));
                }
            }
            BuildVia::Many => {
                let mut b = router.get_builder(tagged(tag));
                let mut h = Some(mk(route.hid));
                b.many(|b| {
                    let mut p = b.path(full(route));
                    let mut n = p.then();
                    let h = h.take().unwrap();
                    match &route.method[..] {
                        "GET" => n.on_get(h),
                        "POST" => n.on_post(h),
                        "PUT" => n.on_put(h),
                        "PATCH" => n.on_patch(h),
                        "DELETE" => n.on_delete(h),
                        "OPTIONS" => n.on_options(h),
                        "HEAD" => n.on_head(h),
                        "CONNECT" => n.on_connect(h),
                        _ => n.on(m.clone(), h),
                    }
                });
            }
        }
        i += 1;
    }
}

/// What the application passes on to its handlers while the router is built.
#[derive(Clone)]
struct Tag(&'static str);

fn tagged(tag: bool) -> BuilderContext {
    let mut c = BuilderContext::new();
    if tag {
        c.insert(Tag(TAG));
    }
    c
}

/// A handler of the application that knows the tag.
#[derive(Default)]
pub struct Tagged<T> {
    handler: T,
    tag: Option<&'static str>,
}

impl<T: FromHandler<U>, U> FromHandler<U> for Tagged<T> {
    fn from_handler(context: BuilderContext, handler: U) -> Tagged<T> {
        Tagged { tag: context.get::<Tag>().map(|t| t.0), handler: T::from_handler(context, handler) }
    }
}

impl<T: ApplyContext> ApplyContext for Tagged<T> {
    fn apply_context(&mut self, context: BuilderContext) {
        if let Some(t) = context.get::<Tag>() {
            self.tag = Some(t.0);
        }
        self.handler.apply_context(context);
    }
    fn prepend_context(&mut self, context: BuilderContext) {
        if let Some(t) = context.get::<Tag>() {
            self.tag = Some(t.0);
        }
        self.handler.prepend_context(context);
    }
}

impl<T: Merge> Merge for Tagged<T> {
    fn merge(&mut self, other: Tagged<T>) {
        self.tag = other.tag;
        self.handler.merge(other.handler);
    }
}

impl<T: HandleRequest> HandleRequest for Tagged<T> {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        if let Some(t) = self.tag {
            environment.context.variables.insert(TAG, t);
        }
        self.handler.handle_request(environment)
    }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        self.handler.hyperlinks(base)
    }
}

/// A handler of the application that may reject its requests.
pub struct Picky(H, Option<TreeRouter<Option<H>>>);

impl FromHandler<H> for Picky {
    fn from_handler(_: BuilderContext, handler: H) -> Picky {
        let inner = crate::sc().router.inner.iter().find(|r| r.0 == handler.id).map(|r| {
            let mut tree = TreeRouter::<Option<H>>::with_handler(Some(H { id: handler.id }));
            for p in &r.1 {
                tree.build().on_path(p, H { id: handler.id });
            }
            tree
        });
        Picky(handler, inner)
    }
}

impl ApplyContext for Picky {
    fn apply_context(&mut self, _: BuilderContext) {}
    fn prepend_context(&mut self, _: BuilderContext) {}
}

impl Merge for Picky {
    fn merge(&mut self, other: Picky) {
        *self = other;
    }
}

impl HandleRequest for Picky {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        match crate::sc().router.refuse.iter().find(|r| r.0 == self.0.id) {
            Some(&(_, 0)) => Err(environment),
            Some(&(_, s)) => {
                environment.response.set_status(StatusCode::from_u16(s));
                Err(environment)
            }
            None => self.0.handle_request(environment),
        }
    }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        match self.1 {
            Some(ref inner) => inner.hyperlinks(base),
            None => self.0.hyperlinks(base),
        }
    }
}

/// A router of the application: the first path segment decides which router gets the request.
struct Mount {
    inner: DefaultRouter<H>,
    outer: DefaultRouter<H>,
}

impl HandleRequest for Mount {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        if environment.route_state.get() == Some(MOUNT.as_bytes()) {
            environment.route_state.skip();
            let next = environment.route_state.get().map(|s| s.to_vec());
            if next == Some(REFUSE.as_bytes().to_vec()) {
                return Err(environment);
            }
            if next == Some(GONE.as_bytes().to_vec()) {
                environment.response.set_status(StatusCode::Gone);
                return Err(environment);
            }
            self.inner.handle_request(environment)
        } else {
            self.outer.handle_request(environment)
        }
    }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        self.outer.hyperlinks(base)
    }
}

type Fallbacks = TreeRouter<OrElse<MethodRouter<Variables<Tagged<H>>>, StatusRouter<Variables<Tagged<H>>>>>;

fn add_or_else(router: &mut Fallbacks, r: &RouterSpec, i: usize) {
    let route = &r.routes[i];
    let m = method(&route.method);
    let mine: Vec<_> = r.fallbacks.iter().filter(|f| f.2 == i).collect();
    let (a, z) = route.path.split_at(route.split.min(route.path.len()));
    if route.via == BuildVia::Merge {
        let mut other = Fallbacks::new();
        {
            let mut b = other.build();
            let mut p = b.path(join(z));
            p.then().primary().on(m, H { id: route.hid });
            for &&(s, hid, _) in &mine {
                p.then().secondary().on(StatusCode::from_u16(s), H { id: hid });
            }
        }
        router.get_builder(tagged(r.tag)).path(join(a)).merge(other);
        return;
    }
    let mut b = router.get_builder(tagged(r.tag));
    let mut p = b.path(full(route));
    if route.via == BuildVia::ThenMerge {
        let mut other = MethodRouter::<Variables<Tagged<H>>>::new();
        other.build().on(m, H { id: route.hid });
        p.then().primary().merge(other);
        let mut other = StatusRouter::<Variables<Tagged<H>>>::new();
        for &&(s, hid, _) in &mine {
            other.build().on(StatusCode::from_u16(s), H { id: hid });
        }
        p.then().secondary().merge(other);
        return;
    }
    p.then().primary().on(m, H { id: route.hid });
    for &&(s, hid, _) in &mine {
        p.then().secondary().many(|n| n.on(StatusCode::from_u16(s), H { id: hid }));
    }
}

type MaybeElse = OrElse<Option<Variables<Tagged<Picky>>>, StatusRouter<Variables<Tagged<Picky>>>>;

fn add_maybe_else(router: &mut TreeRouter<MethodRouter<MaybeElse>>, r: &RouterSpec, i: usize) {
    let route = &r.routes[i];
    let m = method(&route.method);
    let mine: Vec<_> = r.fallbacks.iter().filter(|f| f.2 == i).collect();
    let (a, z) = route.path.split_at(route.split.min(route.path.len()));
    let mut both = if mine.iter().any(|f| f.0 == 404) {
        MaybeElse::default()
    } else {
        MaybeElse::with_primary(Some(Variables::from_handler(BuilderContext::new(), H { id: route.hid })))
    };
    for &&(s, hid, _) in &mine {
        both.build().secondary().on(StatusCode::from_u16(s), H { id: hid });
    }
    let mut other = MethodRouter::<MaybeElse>::new();
    other.insert(m, both);
    if route.via == BuildVia::Merge {
        let mut o = TreeRouter::<MethodRouter<MaybeElse>>::new();
        if r.group && z.is_empty() {
            o = TreeRouter::with_handler(other);
        } else {
            o.build().path(join(z)).then().merge(other);
        }
        router.get_builder(tagged(r.tag)).path(join(a)).merge(o);
    } else {
        router.get_builder(tagged(r.tag)).path(full(route)).then().merge(other);
    }
}

fn add_opt<U>(router: &mut TreeRouter<U>, route: &Route, tag: bool)
where
    U: FromHandler<H> + ApplyContext + Merge + Default + 'static,
{
    let h = H { id: route.hid };
    let (a, z) = route.path.split_at(route.split.min(route.path.len()));
    match route.via {
        BuildVia::Path | BuildVia::ThenMerge => {
            router.get_builder(tagged(tag)).on_path(full(route), h);
        }
        BuildVia::OnRoute if route.split == route.path.len() => {
            router.get_builder(tagged(tag)).path(full(route)).on_route("/", h);
        }
        BuildVia::OnRoute => {
            let (last, init) = match route.path.split_last() {
                Some((l, i)) => (l.clone(), join(i)),
                None => (String::new(), String::new()),
            };
            router.get_builder(tagged(tag)).path(init).on_route(last, h);
        }
        BuildVia::Nested => {
            let mut b = router.get_builder(tagged(tag));
            let mut n = b.path(join(a));
            n.path(join(z)).handler(h);
        }
        BuildVia::Merge => {
            let mut other = TreeRouter::<U>::new();
            other.build().on_path(join(z), h);
            router.get_builder(tagged(tag)).path(join(a)).merge(other);
        }
        BuildVia::GetPath => {
            let p = full(route);
            let mut b = router.get_builder(tagged(tag));
            let found = b.get_path(&p).is_some();
            if found {
                b.get_path(&p).unwrap().handler(h);
            } else {
                b.path(&p).handler(h);
            }
        }
        BuildVia::Many => {
            let mut b = router.get_builder(tagged(tag));
            let mut h = Some(h);
            b.many(|b| {
                b.path(full(route)).handler(h.take().unwrap());
            });
        }
    }
}
