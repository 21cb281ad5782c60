use serde_json::{json, Value as J};
#[derive(Clone, Debug, PartialEq)]
pub struct Part {
    pub name: String,
    /// "gql" parts shrink by tokens, "raw" parts by characters, "fixed" parts not at all
    pub kind: &'static str,
    pub text: String,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Case {
    pub parts: Vec<Part>,
}
impl Case {
    pub fn gql(mut self, name: &str, text: String) -> Case {
        self.parts.push(Part { name: name.into(), kind: "gql", text });
        self
    }
    pub fn raw(mut self, name: &str, text: String) -> Case {
        self.parts.push(Part { name: name.into(), kind: "raw", text });
        self
    }
    pub fn fixed(mut self, name: &str, text: String) -> Case {
        self.parts.push(Part { name: name.into(), kind: "fixed", text });
        self
    }
    pub fn get(&self, name: &str) -> &str {
        self.parts.iter().find(|p| p.name == name).map(|p| p.text.as_str()).unwrap_or("")
    }
    pub fn json(&self) -> J {
        J::Array(self.parts.iter().map(|p| json!({"name": p.name, "kind": p.kind, "text": p.text})).collect())
    }
    pub fn from_json(j: &J) -> Option<Case> {
        let mut parts = vec![];
        for p in j.as_array()? {
            parts.push(Part {
                name: p["name"].as_str()?.to_string(),
                kind: match p["kind"].as_str()? {
                    "gql" => "gql",
                    "raw" => "raw",
                    _ => "fixed",
                },
                text: p["text"].as_str()?.to_string(),
            });
        }
        Some(Case { parts })
    }
}
pub enum Out {
    /// held; `Some(key)` when the case was non-trivial, the key identifying it
    Ok(Option<String>),
    /// the case does not reach the property (counted, not checked)
    Skip,
    /// broken: a short class (stable under shrinking) and the details
    Fail(String, String),
}
pub fn fail(class: &str, detail: String) -> Out {
    Out::Fail(class.to_string(), detail)
}
