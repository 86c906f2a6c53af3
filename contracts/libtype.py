"""The types of the language: the extracted enum and its specification."""
import re
from vx import File, AnchorLost, Tok

T = 'src/parser/types.rs'

SPEC = r'''
/// The types which accept none.
spec fn accepts_none(t: Type) -> bool { t is Any || t is Html || t is Block || t is Inline || t is Unit || t is Optional }
/// A type is optional at most once: what is optional does not accept none.
spec fn normal_type(t: Type) -> bool decreases t {
    match t {
        Type::Optional(u) => !accepts_none(*u) && normal_type(*u),
        Type::List(u) | Type::Dict(u) => normal_type(*u),
        _ => true,
    }
}
spec fn optional(t: Type) -> Type { if accepts_none(t) { t } else { Type::Optional(Box::new(t)) } }
'''


def derives(path, kind, name, trait):
    """The derived implementation is what the shims for it say."""
    fl = File.get(path)
    m = re.search(r'((?:#\[[^\]]*\]\s*|///[^\n]*\n\s*)*)(?:pub(?:\([^)]*\))? )?' + kind + ' ' + name + r'\b', fl.text)
    if not m or not re.search(r'derive\([^)]*\b' + trait + r'\b', m.group(1)):
        raise AnchorLost(f'{path}: {name} does not derive {trait}')


def type_enum(u):
    derives(T, 'enum', 'Type', 'PartialEq')
    derives(T, 'enum', 'Type', 'Clone')
    u.item(T, 'enum', 'Type')
    u.text(SPEC + r'''
/// Derived: structural equality.
#[verifier::external_body]
fn type_eq(a: &Type, b: &Type) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
fn clone_type(a: &Type) -> (r: Type) ensures r == *a { unimplemented!() }
''')


def type_fns(u, names):
    """Contracts of the constructors."""
    I = '^impl Type$'
    for n in names:
        f = u.fn(T, n, impl=I)
        if n in ('dict', 'list'):
            v = n.capitalize()
            f.ensures(f'r == Type::{v}(Box::new(self))', 'normal_type(self) ==> normal_type(r)')
        elif n == 'option':
            f.ensures('r == optional(self)', 'normal_type(self) ==> normal_type(r)', 'accepts_none(r)', 'accepts_none(self) ==> r == self')
        elif n == 'option_if':
            f.ensures('r == (if condition { optional(self) } else { self })', 'normal_type(self) ==> normal_type(r)')
        elif n == 'is_html':
            f.ensures('r == (*self is Html || *self is Block || *self is Inline)')
        elif n == 'unit_is_assignable':
            f.ensures('r == accepts_none(*self)')
