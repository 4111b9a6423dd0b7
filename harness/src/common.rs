//! Helpers shared by the harness modules (public API of deser only).
use deser::de::{Deserialize, DeserializerState, Sink, SinkHandle};
use deser::{Atom, Error, Event};
use std::cell::RefCell;
use std::rc::Rc;

/// The flat sequence of events a document was delivered as.
pub struct Doc(pub Vec<Event<'static>>);

struct DocSink<'a> {
    slot: Option<&'a mut Option<Doc>>,
    log: Rc<RefCell<Vec<Event<'static>>>>,
    open: u8,
}
impl Deserialize for Doc {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(DocSink { slot: Some(out), log: Rc::default(), open: 0 })
    }
}
impl<'a> DocSink<'a> {
    fn child<'b>(&self) -> SinkHandle<'b> {
        SinkHandle::boxed(DocSink { slot: None, log: self.log.clone(), open: 0 })
    }
}
impl<'a> Sink for DocSink<'a> {
    fn atom(&mut self, atom: Atom, _: &DeserializerState) -> Result<(), Error> {
        self.log.borrow_mut().push(Event::Atom(atom.to_static()));
        Ok(())
    }
    fn map(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.open = 1;
        self.log.borrow_mut().push(Event::MapStart);
        Ok(())
    }
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.open = 2;
        self.log.borrow_mut().push(Event::SeqStart);
        Ok(())
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle, Error> {
        Ok(self.child())
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle, Error> {
        Ok(self.child())
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        match self.open {
            1 => self.log.borrow_mut().push(Event::MapEnd),
            2 => self.log.borrow_mut().push(Event::SeqEnd),
            _ => {}
        }
        if let Some(ref mut slot) = self.slot {
            **slot = Some(Doc(std::mem::take(&mut *self.log.borrow_mut())));
        }
        Ok(())
    }
}
