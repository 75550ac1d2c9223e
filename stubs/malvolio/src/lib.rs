//! Type-checking stand-in for the (unfetchable, git-pinned) `malvolio` crate: the node types
//! `puck_liveview` converts, with the `into_pub_fields` accessor of its `pub_fields` feature.
//! Nothing here is executed; it only lets rustc resolve `puck_liveview`.
use std::borrow::Cow;
use std::collections::HashMap;
pub type Attrs = HashMap<Cow<'static, str>, Cow<'static, str>>;

macro_rules! node {
    ($name:ident, $fields:ident, $($f:ident : $t:ty),*) => {
        #[derive(Debug, Clone, Default)]
        pub struct $name { $($f: $t),* }
        #[derive(Debug, Clone)]
        pub struct $fields { $(pub $f: $t),* }
        impl $name {
            pub fn new() -> Self { Self::default() }
            pub fn into_pub_fields(self) -> $fields { $fields { $($f: self.$f),* } }
        }
        impl From<$name> for BodyNode { fn from(x: $name) -> BodyNode { BodyNode::$name(x) } }
    };
}
node!(H1, H1Fields, attrs: Attrs, text: Cow<'static, str>);
node!(H2, H2Fields, attrs: Attrs, text: Cow<'static, str>);
node!(H3, H3Fields, attrs: Attrs, text: Cow<'static, str>);
node!(H4, H4Fields, attrs: Attrs, text: Cow<'static, str>);
node!(H5, H5Fields, attrs: Attrs, text: Cow<'static, str>);
node!(H6, H6Fields, attrs: Attrs, text: Cow<'static, str>);
node!(P, PFields, attrs: Attrs, text: Cow<'static, str>, children: Vec<BodyNode>);
node!(Form, FormFields, attrs: Attrs, children: Vec<BodyNode>);
node!(Br, BrFields, attrs: Attrs);
node!(Div, DivFields, attrs: Attrs, children: Vec<BodyNode>);
node!(A, AFields, attrs: Attrs, text: Cow<'static, str>);
node!(Input, InputFields, attrs: Attrs);
node!(Label, LabelFields, attrs: Attrs, text: Cow<'static, str>);
node!(Select, SelectFields, attrs: Attrs, children: Vec<BodyNode>);
node!(NoScript, NoScriptFields, text: Cow<'static, str>);
node!(Text, TextFields, text: Cow<'static, str>);
node!(Img, ImgFields, attrs: Attrs);

#[derive(Debug, Clone)]
pub enum BodyNode {
    H1(H1), H2(H2), H3(H3), H4(H4), H5(H5), H6(H6), P(P), Form(Form), Br(Br), Div(Div), A(A),
    Input(Input), Label(Label), Select(Select), NoScript(NoScript), Text(Text), Img(Img),
}
pub mod prelude {
    pub use super::{A, BodyNode, Br, Div, Form, H1, H2, H3, H4, H5, H6, Img, Input, Label, NoScript, P, Select, Text};
}
