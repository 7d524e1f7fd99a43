//! Compiles without the feature `user` if the library does; with it, only if user-defined types that promise
//! no more than the traits ask for are accepted.
fn main() {
    let strict = soupy::Soup::html_strict("<p>x</p>").unwrap();
    let lenient = soupy::Soup::html("<p>x</p>");
    let xml = soupy::Soup::xml("<p>x</p>".as_bytes()).unwrap();
    use soupy::{Node, Queryable};
    assert_eq!(strict.tag("p").all().count() + lenient.tag("p").all().count() + xml.tag("p").all().count(), 3);
    assert_eq!(xml.tag("p").first().unwrap().all_text(), "x");
    #[cfg(feature = "user")]
    user::main();
}

#[cfg(feature = "user")]
mod user {
    use std::{cmp::Ordering, collections::BTreeMap, rc::Rc};

    use soupy::{
        filter::{And, Filter, Or},
        parser::Parser,
        query::{Query, QueryItem, QueryIter},
        Node, Pattern, Queryable, Soup,
    };

    /// Text that is nothing but ordered, and belongs to one thread.
    pub struct Key(u8, Rc<u8>);
    impl PartialEq for Key {
        fn eq(&self, o: &Key) -> bool {
            self.0 == o.0
        }
    }
    impl Eq for Key {}
    impl PartialOrd for Key {
        fn partial_cmp(&self, o: &Key) -> Option<Ordering> {
            Some(self.cmp(o))
        }
    }
    impl Ord for Key {
        fn cmp(&self, o: &Key) -> Ordering {
            self.0.cmp(&o.0)
        }
    }

    /// Text that is nothing at all.
    pub struct Opaque(#[allow(dead_code)] Rc<u8>);

    pub struct Plain<T> {
        name: Option<T>,
        text: Option<T>,
        attrs: Option<BTreeMap<T, T>>,
        children: Vec<Plain<T>>,
    }
    impl<T> Node for Plain<T> {
        type Text = T;
        fn name(&self) -> Option<&T> {
            self.name.as_ref()
        }
        fn text(&self) -> Option<&T> {
            self.text.as_ref()
        }
        fn attrs(&self) -> Option<&BTreeMap<T, T>> {
            self.attrs.as_ref()
        }
        fn children(&self) -> &[Self] {
            &self.children
        }
    }

    pub struct Given<T>(std::marker::PhantomData<T>);
    pub struct NoError;
    impl<T> Parser for Given<T> {
        type Input = Vec<Plain<T>>;
        type Node = Plain<T>;
        type Error = NoError;
        fn parse(input: Vec<Plain<T>>) -> Result<Vec<Plain<T>>, NoError> {
            Ok(input)
        }
    }

    pub struct Any(Rc<u8>);
    impl<T> Pattern<T> for Any {
        fn matches(&self, _: &T) -> bool {
            *self.0 == 0
        }
    }

    pub struct All(Rc<u8>);
    impl<N> Filter<N> for All {
        fn matches(&self, _: &N) -> bool {
            *self.0 == 0
        }
    }

    fn node<T>(name: Option<T>, text: Option<T>, children: Vec<Plain<T>>) -> Plain<T> {
        Plain { name, text, attrs: None, children }
    }

    pub fn main() {
        let key = |n| Key(n, Rc::new(n));
        let mut top = node(Some(key(1)), None, vec![node(None, Some(key(2)), vec![])]);
        top.attrs = Some([(key(3), key(4))].into());
        let Ok(soup) = Soup::new::<Given<Key>>(vec![top]) else { panic!() };
        let any = || Any(Rc::new(0));
        assert_eq!(soup.tag(any()).attr(any(), any()).strict().recursive().all().count(), 1);
        assert_eq!(soup.attr_name(any()).tag(true).all().count(), 1);
        assert_eq!(soup.attr_value(any()).tag(false).all().count(), 0);
        let it: QueryIter<Plain<Key>, ()> = soup.iter();
        assert_eq!(it.count(), 2);
        assert_eq!((&soup).into_iter().count(), 2);
        let first: QueryItem<Plain<Key>> = soup.tag(any()).first().unwrap();
        assert_eq!(first.descendants().count() + first.children().len(), 3);

        let opaque = |n: u8| Opaque(Rc::new(n));
        let Ok(soup) = Soup::new::<Given<Opaque>>(vec![node(Some(opaque(1)), None, vec![node(None, Some(opaque(2)), vec![])])]) else { panic!() };
        assert_eq!(soup.tag(any()).all().count(), 1);
        let q: Query<Plain<Opaque>, ()> = soup.strict();
        let (a, b) = (q, q);
        assert_eq!(a.all().count() + b.recursive().all().count(), 3);

        let both = Or(And(All(Rc::new(0)), All(Rc::new(1))), All(Rc::new(0)));
        assert!(Filter::<Opaque>::matches(&both, &opaque(0)));
    }
}
