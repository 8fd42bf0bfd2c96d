//! A transparent copy of an R1CS proof, read from and written to its public encoding, so that
//! checks can look at and alter individual elements.
use ark_ec::AffineRepr;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bulletproofs::r1cs::{R1CSError, R1CSProof};

#[derive(Clone, PartialEq, Debug)]
pub struct PM<C: AffineRepr> {
    pub p1: [C; 3], // A_I1, A_O1, S1
    pub flag: u8,
    pub p2: [C; 3], // A_I2, A_O2, S2 (present if flag == 1)
    pub t: Vec<C>,
    pub s: [C::ScalarField; 3], // t_x, t_x_blinding, e_blinding
    pub l: Vec<C>,
    pub r: Vec<C>,
    pub a: C::ScalarField,
    pub b: C::ScalarField,
}

impl<C: AffineRepr> PM<C> {
    pub fn parse(bytes: &[u8]) -> Option<Self> {
        let mut rd = bytes;
        let pt = |rd: &mut &[u8]| C::deserialize_compressed(rd).ok();
        let sc = |rd: &mut &[u8]| C::ScalarField::deserialize_compressed(rd).ok();
        let p1 = [pt(&mut rd)?, pt(&mut rd)?, pt(&mut rd)?];
        let flag = u8::deserialize_compressed(&mut rd).ok()?;
        let p2 = if flag == 1 {
            [pt(&mut rd)?, pt(&mut rd)?, pt(&mut rd)?]
        } else {
            [C::zero(); 3]
        };
        let t = Vec::<C>::deserialize_compressed(&mut rd).ok()?;
        let s = [sc(&mut rd)?, sc(&mut rd)?, sc(&mut rd)?];
        let l = Vec::<C>::deserialize_compressed(&mut rd).ok()?;
        let r = Vec::<C>::deserialize_compressed(&mut rd).ok()?;
        let a = sc(&mut rd)?;
        let b = sc(&mut rd)?;
        if !rd.is_empty() {
            return None;
        }
        Some(PM { p1, flag, p2, t, s, l, r, a, b })
    }
    pub fn of(p: &R1CSProof<C>) -> Self {
        Self::parse(&p.to_bytes()).expect("proof encoding has the documented layout")
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        for p in &self.p1 { p.serialize_compressed(&mut o).unwrap(); }
        self.flag.serialize_compressed(&mut o).unwrap();
        if self.flag == 1 {
            for p in &self.p2 { p.serialize_compressed(&mut o).unwrap(); }
        }
        self.t.serialize_compressed(&mut o).unwrap();
        for p in &self.s { p.serialize_compressed(&mut o).unwrap(); }
        self.l.serialize_compressed(&mut o).unwrap();
        self.r.serialize_compressed(&mut o).unwrap();
        self.a.serialize_compressed(&mut o).unwrap();
        self.b.serialize_compressed(&mut o).unwrap();
        o
    }
    pub fn proof(&self) -> Result<R1CSProof<C>, R1CSError> {
        R1CSProof::from_bytes(&self.bytes())
    }
    /// All point positions: (name, value)
    pub fn points(&self) -> Vec<(String, C)> {
        let mut o = vec![];
        for (i, p) in self.p1.iter().enumerate() { o.push((["A_I1", "A_O1", "S1"][i].to_string(), *p)); }
        for (i, p) in self.p2.iter().enumerate() { o.push((["A_I2", "A_O2", "S2"][i].to_string(), *p)); }
        for (i, p) in self.t.iter().enumerate() { o.push((format!("T[{}]", i), *p)); }
        for (i, p) in self.l.iter().enumerate() { o.push((format!("L[{}]", i), *p)); }
        for (i, p) in self.r.iter().enumerate() { o.push((format!("R[{}]", i), *p)); }
        o
    }
    pub fn point_mut(&mut self, mut i: usize) -> &mut C {
        if i < 3 { return &mut self.p1[i]; }
        i -= 3;
        if i < 3 { return &mut self.p2[i]; }
        i -= 3;
        if i < self.t.len() { return &mut self.t[i]; }
        i -= self.t.len();
        if i < self.l.len() { return &mut self.l[i]; }
        i -= self.l.len();
        &mut self.r[i]
    }
    pub fn scalar_mut(&mut self, i: usize) -> &mut C::ScalarField {
        match i {
            0..=2 => &mut self.s[i],
            3 => &mut self.a,
            _ => &mut self.b,
        }
    }
    pub const SCALARS: [&'static str; 5] = ["t_x", "t_x_blinding", "e_blinding", "a", "b"];
    /// Keeps the phase flag consistent with the presence of second-phase points.
    pub fn fix_flag(&mut self) {
        self.flag = if self.p2.iter().all(|p| p.is_zero()) { 0 } else { 1 };
    }
}
