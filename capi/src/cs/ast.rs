//! C# as far as the repository uses it.
use std::sync::Arc;

pub type Id = u32;
#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Name(Id, Vec<String>, Vec<Ty>),
    Ptr(Box<Ty>),
    Opt(Box<Ty>),
    Arr(Box<Ty>),
    Tuple(Vec<Ty>),
    Var,
}
#[derive(Debug)]
pub enum E {
    Null,
    Bool(bool),
    Int(i128, String),
    Flt(f64, char),
    Str(Arc<Vec<u16>>),
    Chr(u16),
    This,
    Base,
    Name(Id, String, Vec<Ty>),
    Member(Box<Ex>, String, Vec<Ty>, bool),
    Call(Box<Ex>, Vec<Ex>),
    Index(Box<Ex>, Vec<Ex>),
    New(Ty, Vec<Ex>, Vec<(String, Ex)>),
    NewArr(Ty, Option<Box<Ex>>, Vec<Ex>),
    Cast(Ty, Box<Ex>),
    Un(&'static str, Box<Ex>),
    Post(&'static str, Box<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Assign(&'static str, Box<Ex>, Box<Ex>),
    Cond(Box<Ex>, Box<Ex>, Box<Ex>),
    Lambda(Arc<(Vec<String>, Body)>),
    Tuple(Vec<Ex>),
    Default(Option<Ty>),
    Throw(Box<Ex>),
    Is(Box<Ex>, Box<Pat>),
    /// pattern, guard, value
    Switch(Box<Ex>, Vec<(Pat, Option<Ex>, Ex)>),
    As(Box<Ex>, Ty),
    TypeOf(Ty),
    NameOf(String),
}
#[derive(Debug)]
pub enum Pat {
    Any(Option<String>),
    Null,
    /// anything but null
    Some(Option<String>),
    Const(Ex),
    /// a type, or a constant of that name
    Type(Ty, Option<Box<Ex>>, Option<String>),
    Rel(&'static str, Ex),
    Not(Box<Pat>),
    And(Box<Pat>, Box<Pat>),
    Or(Box<Pat>, Box<Pat>),
}
#[derive(Debug)]
pub struct Ex {
    pub e: E,
    pub line: u32,
}
#[derive(Debug)]
pub enum S {
    Block(Vec<S>),
    Local(Ty, Vec<(String, Option<Ex>)>),
    Expr(Ex),
    If(Ex, Box<S>, Option<Box<S>>),
    While(Ex, Box<S>),
    Do(Box<S>, Ex),
    Each(Ty, String, Ex, Box<S>),
    /// labels with guards, statements
    Switch(Ex, Vec<(Vec<(Pat, Option<Ex>)>, Vec<S>)>),
    For(Vec<S>, Option<Ex>, Vec<Ex>, Box<S>),
    Return(Option<Ex>),
    Throw(Option<Ex>),
    Fixed(Ty, String, Ex, Box<S>),
    Using(Box<S>, Box<S>),
    Try(Box<S>, Vec<(Option<Ty>, Option<String>, S)>, Option<Box<S>>),
    Break,
    Continue,
}
#[derive(Debug)]
pub enum Body {
    None,
    Expr(Ex),
    Block(S),
}
#[derive(Debug)]
pub struct Param {
    pub ty: Ty,
    pub name: String,
    pub default: Option<Ex>,
    /// takes any number of arguments (`params`)
    pub rest: bool,
}
#[derive(Debug)]
pub struct Method {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<Param>,
    pub body: Body,
    pub is_static: bool,
    /// the C function of a `DllImport`
    pub native: Option<String>,
    pub generics: Vec<String>,
    /// `base(..)` or `this(..)` of a constructor
    pub chain: Option<(bool, Vec<Ex>)>,
    pub line: u32,
    /// is a test of xunit
    pub fact: bool,
}
#[derive(Debug)]
pub struct Prop {
    pub name: String,
    pub ty: Ty,
    pub params: Vec<Param>,
    /// bodies are `None` for accessors without one
    pub get: Option<Body>,
    pub set: Option<Body>,
    pub auto: bool,
    pub is_static: bool,
    pub init: Option<Ex>,
}
#[derive(Debug)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Ex>,
    pub is_static: bool,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Kind {
    Class,
    Struct,
    Enum,
    Interface,
}
#[derive(Debug)]
pub struct Decl {
    pub kind: Kind,
    pub name: String,
    pub generics: Vec<String>,
    pub bases: Vec<Ty>,
    pub fields: Vec<Field>,
    pub props: Vec<Prop>,
    pub methods: Vec<Method>,
    pub ctors: Vec<Method>,
    pub dtor: Option<Method>,
    pub nested: Vec<Decl>,
    pub consts: Vec<(String, Option<Ex>)>,
    pub is_abstract: bool,
    pub is_static: bool,
    pub line: u32,
}
#[derive(Debug, Default)]
pub struct Ns {
    pub name: String,
    pub usings: Vec<String>,
    pub aliases: Vec<(String, Vec<String>, Vec<Ty>)>,
    pub inner: Vec<Ns>,
    pub decls: Vec<Decl>,
}
