//! A model of the parts of the `hdf5` crate that subsweep uses: files, datasets and attributes live
//! in memory. Rows are kept as bytes; every row counts how often it was written.
#![allow(static_mut_refs)]
use std::ops::Range;
use std::path::Path;

pub use hdf5_macros::H5Type;
/// Values are copied bytewise.
pub unsafe trait H5Type: 'static {}
macro_rules! prim { ($($t:ty),*) => { $(unsafe impl H5Type for $t {})* } }
prim!(f64, f32, i32, u32, i64, u64, usize, isize, bool, u8, i8, u16, i16);

#[derive(Debug)]
pub struct Error;
pub type Result<T, E = Error> = core::result::Result<T, E>;
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("error")
    }
}

pub const ROW: usize = 64;
#[derive(Clone, Copy)]
pub struct Cell {
    pub bytes: [u8; ROW],
    pub written: u32,
}
impl Cell {
    pub const fn empty() -> Self {
        Cell { bytes: [0; ROW], written: 0 }
    }
    pub fn put<T>(&mut self, t: &T) {
        let n = core::mem::size_of::<T>();
        assert!(n <= ROW);
        unsafe { core::ptr::copy_nonoverlapping(t as *const T as *const u8, self.bytes.as_mut_ptr(), n) };
        self.written += 1;
    }
    pub fn get<T>(&self) -> T {
        let n = core::mem::size_of::<T>();
        assert!(n <= ROW);
        unsafe {
            let mut t = core::mem::MaybeUninit::<T>::uninit();
            core::ptr::copy_nonoverlapping(self.bytes.as_ptr(), t.as_mut_ptr() as *mut u8, n);
            t.assume_init()
        }
    }
}
pub struct Named<T> {
    pub name: String,
    pub value: T,
}
pub struct DatasetData {
    pub rows: Vec<Cell>,
    pub columns: Vec<Vec<f64>>,
    pub attrs: Vec<Named<Cell>>,
}
pub struct FileData {
    pub path: String,
    pub datasets: Vec<Named<DatasetData>>,
    pub attrs: Vec<Named<Cell>>,
}
static mut FILES: Vec<FileData> = Vec::new();
pub fn files() -> &'static mut Vec<FileData> {
    unsafe { &mut FILES }
}
/// Removes all files.
pub fn reset() {
    files().clear();
}
/// The number of a new, empty file.
pub fn add_file(path: &str) -> usize {
    files().push(FileData { path: path.to_owned(), datasets: Vec::new(), attrs: Vec::new() });
    files().len() - 1
}
/// The number of a new dataset in a file.
pub fn add_dataset(file: usize, name: &str, rows: Vec<Cell>) -> usize {
    let f = &mut files()[file];
    f.datasets.push(Named {
        name: name.to_owned(),
        value: DatasetData { rows, columns: Vec::new(), attrs: Vec::new() },
    });
    f.datasets.len() - 1
}

#[derive(Debug, Clone)]
pub struct File(usize);
#[derive(Debug, Clone)]
pub struct Dataset(usize, usize);
pub struct Attribute {
    file: usize,
    dataset: Option<usize>,
    index: usize,
}

impl File {
    pub fn from_index(i: usize) -> Self {
        File(i)
    }
    pub fn open<P: AsRef<Path>>(p: P) -> Result<Self> {
        let p = p.as_ref().to_str().unwrap();
        for (i, f) in files().iter().enumerate() {
            if f.path == p {
                return Ok(File(i));
            }
        }
        Err(Error)
    }
    pub fn open_rw<P: AsRef<Path>>(p: P) -> Result<Self> {
        Self::open(p)
    }
    pub fn create<P: AsRef<Path>>(p: P) -> Result<Self> {
        if let Ok(f) = Self::open(p.as_ref()) {
            files()[f.0].datasets.clear();
            files()[f.0].attrs.clear();
            return Ok(f);
        }
        Ok(File(add_file(p.as_ref().to_str().unwrap())))
    }
    pub fn dataset(&self, name: &str) -> Result<Dataset> {
        for (i, d) in files()[self.0].datasets.iter().enumerate() {
            if d.name == name {
                return Ok(Dataset(self.0, i));
            }
        }
        Err(Error)
    }
    pub fn filename(&self) -> String {
        files()[self.0].path.clone()
    }
    pub fn new_dataset<T: H5Type>(&self) -> DatasetBuilder {
        DatasetBuilder { file: self.0, len: None }
    }
    pub fn new_attr<T: H5Type>(&self) -> AttributeBuilder {
        AttributeBuilder { file: self.0, dataset: None }
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        find(self.0, None, name)
    }
}

fn attrs(file: usize, dataset: Option<usize>) -> &'static mut Vec<Named<Cell>> {
    let f = &mut files()[file];
    match dataset {
        Some(d) => &mut f.datasets[d].value.attrs,
        None => &mut f.attrs,
    }
}
fn find(file: usize, dataset: Option<usize>, name: &str) -> Result<Attribute> {
    for (i, a) in attrs(file, dataset).iter().enumerate() {
        if a.name == name {
            return Ok(Attribute { file, dataset, index: i });
        }
    }
    Err(Error)
}

pub struct DatasetBuilder {
    file: usize,
    len: Option<usize>,
}
impl DatasetBuilder {
    pub fn shape(mut self, n: &[usize; 1]) -> Self {
        self.len = Some(n[0]);
        self
    }
    pub fn create(self, name: &str) -> Result<Dataset> {
        if File(self.file).dataset(name).is_ok() {
            return Err(Error);
        }
        let d = add_dataset(self.file, name, vec![Cell::empty(); self.len.unwrap()]);
        Ok(Dataset(self.file, d))
    }
}
pub struct AttributeBuilder {
    file: usize,
    dataset: Option<usize>,
}
impl AttributeBuilder {
    pub fn shape(self, _s: ()) -> Self {
        self
    }
    pub fn create(self, name: &str) -> Result<Attribute> {
        if find(self.file, self.dataset, name).is_ok() {
            return Err(Error);
        }
        let l = attrs(self.file, self.dataset);
        l.push(Named { name: name.to_owned(), value: Cell::empty() });
        Ok(Attribute { file: self.file, dataset: self.dataset, index: l.len() - 1 })
    }
}
impl Attribute {
    pub fn write_scalar<T: H5Type>(&self, t: &T) -> Result<()> {
        attrs(self.file, self.dataset)[self.index].value.put(t);
        Ok(())
    }
    pub fn read_scalar<T: H5Type>(&self) -> Result<T> {
        Ok(attrs(self.file, self.dataset)[self.index].value.get())
    }
}

pub trait IntoRows {
    fn into_rows(self) -> Range<usize>;
}
impl IntoRows for Range<usize> {
    fn into_rows(self) -> Range<usize> {
        self
    }
}
impl IntoRows for Selection {
    fn into_rows(self) -> Range<usize> {
        self.0
    }
}
/// Rows of a two dimensional dataset, all columns.
pub struct Selection(Range<usize>);
impl Selection {
    pub fn try_new<I: AsRef<[ndarray::SliceInfoElem]>>(s: I) -> Result<Self> {
        let s = s.as_ref();
        if s.len() != 2 {
            return Err(Error);
        }
        match (s[0], s[1]) {
            (
                ndarray::SliceInfoElem::Slice { start, end: Some(end), step: 1 },
                ndarray::SliceInfoElem::Slice { start: 0, end: None, step: 1 },
            ) => Ok(Selection(start as usize..end as usize)),
            _ => Err(Error),
        }
    }
}

impl Dataset {
    fn data(&self) -> &'static mut DatasetData {
        &mut files()[self.0].datasets[self.1].value
    }
    pub fn name(&self) -> String {
        files()[self.0].datasets[self.1].name.clone()
    }
    pub fn shape(&self) -> Vec<usize> {
        let d = self.data();
        if d.columns.is_empty() {
            vec![d.rows.len()]
        } else {
            vec![d.columns.len(), d.columns[0].len()]
        }
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        find(self.0, Some(self.1), name)
    }
    pub fn new_attr<T: H5Type>(&self) -> AttributeBuilder {
        AttributeBuilder { file: self.0, dataset: Some(self.1) }
    }
    pub fn read_slice_1d<T: H5Type, R: IntoRows>(&self, r: R) -> Result<ndarray::Array1<T>> {
        let r = r.into_rows();
        let d = self.data();
        if r.start > r.end || r.end > d.rows.len() {
            return Err(Error);
        }
        let mut v = Vec::new();
        for i in r {
            v.push(d.rows[i].get::<T>());
        }
        Ok(ndarray::Array1::from_vec(v))
    }
    pub fn read_slice_2d<T: H5Type, R: IntoRows>(&self, r: R) -> Result<ndarray::Array2<f64>> {
        let r = r.into_rows();
        let d = self.data();
        if r.start > r.end || r.end > d.columns.len() {
            return Err(Error);
        }
        let n = r.end - r.start;
        let mut v = Vec::new();
        let mut w = 0;
        for i in r {
            w = d.columns[i].len();
            for x in &d.columns[i] {
                v.push(*x);
            }
        }
        Ok(ndarray::Array2::from_shape_vec((n, w), v).unwrap())
    }
    pub fn write_slice<T: H5Type, R: IntoRows>(&self, t: &[T], r: R) -> Result<()> {
        let r = r.into_rows();
        let d = self.data();
        if r.start > r.end || r.end > d.rows.len() || r.end - r.start != t.len() {
            return Err(Error);
        }
        for (k, i) in r.enumerate() {
            d.rows[i].put(&t[k]);
        }
        Ok(())
    }
}
