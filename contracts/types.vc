@type unraw::IdentUnraw #[verifier::external_derive(Clone)]
@type unraw::MemberUnraw
@type fmt::FmtArguments
@type ast::Input
@type ast::Struct
@type ast::Enum
@type ast::Variant
@type ast::Field
@type ast::ContainerKind
@type attr::Attrs
@type attr::Display #[verifier::external_derive(Clone)]
@type attr::Source
@type attr::From
@type attr::Transparent
@type attr::Fmt #[verifier::external_derive(Clone)]
@type attr::Trait
@end
@type generics::ParamsInScope
@type generics::InferredBounds
@end
