//! replay <property> <hex bytes in the order they were drawn>: exit 0 if the property holds on
//! them, 1 if not (a panic of the code under test also counts), 3 if they break an assumption
struct R(Vec<u8>, usize);

impl vpk::Src for R {
    fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut b = [0u8; N];
        for x in b.iter_mut() {
            *x = self.0.get(self.1).copied().unwrap_or(0);
            self.1 += 1;
        }
        b
    }
    fn assume(&mut self, c: bool) {
        if !c {
            std::process::exit(3);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let h = a.get(2).cloned().unwrap_or_default();
    let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    let r = std::panic::catch_unwind(move || vpk::run_by_name(&a[1], &mut R(b, 0)));
    std::process::exit(match r {
        Ok(Some(true)) => 0,
        Ok(Some(false)) | Err(_) => 1,
        Ok(None) => 4,
    });
}
