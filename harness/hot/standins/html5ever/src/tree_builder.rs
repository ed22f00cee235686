use crate::names::*;
use std::borrow::Cow;
use std::fmt::Debug;
use tendril::StrTendril;

#[derive(PartialEq, Eq, Copy, Clone, Hash, Debug)]
pub enum QuirksMode { Quirks, LimitedQuirks, NoQuirks }
pub enum NodeOrText<H> { AppendNode(H), AppendText(StrTendril) }
#[derive(Default, Clone, Copy, Debug)]
#[non_exhaustive]
pub struct ElementFlags { pub template: bool, pub mathml_annotation_xml_integration_point: bool }
#[derive(PartialEq, Eq, Clone, Copy, Hash, Debug)]
pub enum NextParserState { Suspend, Continue }

pub trait ElemName: Debug {
    fn ns(&self) -> &Namespace;
    fn local_name(&self) -> &LocalName;
}
pub trait TreeSink {
    type Handle: Clone;
    type Output;
    type ElemName<'a>: ElemName where Self: 'a;
    fn finish(self) -> Self::Output;
    fn parse_error(&self, msg: Cow<'static, str>);
    fn get_document(&self) -> Self::Handle;
    fn elem_name<'a>(&'a self, target: &'a Self::Handle) -> Self::ElemName<'a>;
    fn create_element(&self, name: QualName, attrs: Vec<Attribute>, flags: ElementFlags) -> Self::Handle;
    fn create_comment(&self, text: StrTendril) -> Self::Handle;
    fn create_pi(&self, target: StrTendril, data: StrTendril) -> Self::Handle;
    fn append(&self, parent: &Self::Handle, child: NodeOrText<Self::Handle>);
    fn append_based_on_parent_node(&self, element: &Self::Handle, prev_element: &Self::Handle, child: NodeOrText<Self::Handle>);
    fn append_doctype_to_document(&self, name: StrTendril, public_id: StrTendril, system_id: StrTendril);
    fn mark_script_already_started(&self, _node: &Self::Handle) {}
    fn pop(&self, _node: &Self::Handle) {}
    fn get_template_contents(&self, target: &Self::Handle) -> Self::Handle;
    fn same_node(&self, x: &Self::Handle, y: &Self::Handle) -> bool;
    fn set_quirks_mode(&self, mode: QuirksMode);
    fn append_before_sibling(&self, sibling: &Self::Handle, new_node: NodeOrText<Self::Handle>);
    fn add_attrs_if_missing(&self, target: &Self::Handle, attrs: Vec<Attribute>);
    fn associate_with_form(&self, _target: &Self::Handle, _form: &Self::Handle, _nodes: (&Self::Handle, Option<&Self::Handle>)) {}
    fn remove_from_parent(&self, target: &Self::Handle);
    fn reparent_children(&self, node: &Self::Handle, new_parent: &Self::Handle);
    fn is_mathml_annotation_xml_integration_point(&self, _handle: &Self::Handle) -> bool { false }
    fn set_current_line(&self, _line_number: u64) {}
    fn allow_declarative_shadow_roots(&self, _intended_parent: &Self::Handle) -> bool { true }
    fn attach_declarative_shadow(&self, _location: &Self::Handle, _template: &Self::Handle, _attrs: &[Attribute]) -> bool { false }
    fn maybe_clone_an_option_into_selectedcontent(&self, _option: &Self::Handle) {}
}
