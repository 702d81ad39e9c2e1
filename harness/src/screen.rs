//! Emulated text terminal: keeps the characters that a user sees, so that what interactive
//! components display can be compared with what they should.

use async_trait::async_trait;
use endbasic_std::console::{CharsXY, ClearType, Console, Key};
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

/// What is visible at some point.
#[derive(Clone, Debug, PartialEq)]
pub struct Shown {
    pub rows: Vec<Vec<char>>,
    pub cursor: Option<(usize, usize)>,
}

impl Shown {
    pub fn row(&self, y: usize) -> String {
        let s: String = self.rows[y].iter().collect();
        s.trim_end().to_owned()
    }
}

/// Called when a component waits for a key, with what is visible.
pub type Hook = Box<dyn FnMut(&Shown, &ScreenState) -> io::Result<Key>>;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct ScreenState {
    pub alt: bool,
    pub sync: bool,
    pub color: (Option<u8>, Option<u8>),
    pub keys_read: u64,
    pub ops: u64,
}

pub struct Screen {
    pub w: usize,
    pub h: usize,
    grid: Vec<Vec<char>>,
    /// Position; x can be `w` while a wrap is pending.
    x: usize,
    y: usize,
    cursor: bool,
    shown: Shown,
    saved: Option<(Vec<Vec<char>>, usize, usize)>,
    pub st: ScreenState,
    pub hook: Option<Hook>,
    pub interactive: bool,
    pub fail_after: Option<u64>,
    pub failed: u64,
    /// All text ever sent to the console.
    pub text: String,
    /// Number of lines that scrolled out.
    pub scrolled: usize,
}

impl Screen {
    pub fn new(w: usize, h: usize) -> Self {
        let grid = vec![vec![' '; w]; h];
        Self {
            w,
            h,
            shown: Shown { rows: grid.clone(), cursor: Some((0, 0)) },
            grid,
            x: 0,
            y: 0,
            cursor: true,
            saved: None,
            st: ScreenState { sync: true, ..Default::default() },
            hook: None,
            interactive: true,
            fail_after: None,
            failed: 0,
            text: String::new(),
            scrolled: 0,
        }
    }

    pub fn shared(w: usize, h: usize) -> Rc<RefCell<Self>> {
        Rc::new(RefCell::new(Self::new(w, h)))
    }

    fn op(&mut self) -> io::Result<()> {
        self.st.ops += 1;
        if let Some(n) = self.fail_after.as_mut() {
            if *n == 0 {
                self.failed += 1;
                return Err(io::Error::other("injected console fault"));
            }
            *n -= 1;
        }
        Ok(())
    }

    fn snap(&self) -> Shown {
        Shown {
            rows: self.grid.clone(),
            cursor: if self.cursor { Some((self.x.min(self.w - 1), self.y)) } else { None },
        }
    }

    fn update(&mut self) {
        if self.st.sync {
            self.shown = self.snap();
        }
    }

    fn newline(&mut self) {
        self.x = 0;
        if self.y + 1 < self.h {
            self.y += 1;
        } else {
            self.grid.remove(0);
            self.grid.push(vec![' '; self.w]);
            self.scrolled += 1;
        }
    }

    fn put(&mut self, text: &str) {
        self.text.push_str(text);
        for ch in text.chars() {
            if self.x >= self.w {
                self.newline();
            }
            let ch = if ch.is_control() { ' ' } else { ch };
            self.grid[self.y][self.x] = ch;
            self.x += 1;
        }
    }

    /// Currently visible.
    pub fn visible(&self) -> Shown {
        if self.st.sync { self.snap() } else { self.shown.clone() }
    }

    pub fn position(&self) -> (usize, usize) {
        (self.x, self.y)
    }
}

#[async_trait(?Send)]
impl Console for Screen {
    fn clear(&mut self, how: ClearType) -> io::Result<()> {
        self.op()?;
        match how {
            ClearType::All => {
                self.grid = vec![vec![' '; self.w]; self.h];
                self.x = 0;
                self.y = 0;
            }
            ClearType::CurrentLine => self.grid[self.y] = vec![' '; self.w],
            ClearType::PreviousChar => {
                if self.x >= self.w {
                    self.x = self.w - 1;
                }
                if self.x > 0 {
                    self.x -= 1;
                }
                let (x, y) = (self.x, self.y);
                self.grid[y][x] = ' ';
            }
            ClearType::UntilNewLine => {
                for x in self.x.min(self.w - 1)..self.w {
                    self.grid[self.y][x] = ' ';
                }
            }
        }
        self.update();
        Ok(())
    }
    fn color(&self) -> (Option<u8>, Option<u8>) {
        self.st.color
    }
    fn set_color(&mut self, fg: Option<u8>, bg: Option<u8>) -> io::Result<()> {
        self.op()?;
        self.st.color = (fg, bg);
        Ok(())
    }
    fn enter_alt(&mut self) -> io::Result<()> {
        self.op()?;
        if !self.st.alt {
            self.st.alt = true;
            self.saved = Some((self.grid.clone(), self.x, self.y));
            self.grid = vec![vec![' '; self.w]; self.h];
        }
        self.update();
        Ok(())
    }
    fn hide_cursor(&mut self) -> io::Result<()> {
        self.op()?;
        self.cursor = false;
        self.update();
        Ok(())
    }
    fn is_interactive(&self) -> bool {
        self.interactive
    }
    fn leave_alt(&mut self) -> io::Result<()> {
        self.op()?;
        if self.st.alt {
            self.st.alt = false;
            if let Some((g, x, y)) = self.saved.take() {
                self.grid = g;
                self.x = x;
                self.y = y;
            }
        }
        self.update();
        Ok(())
    }
    fn locate(&mut self, pos: CharsXY) -> io::Result<()> {
        self.op()?;
        let (x, y) = (usize::from(pos.x), usize::from(pos.y));
        if x >= self.w || y >= self.h {
            panic!("MONITOR: cursor moved outside of the screen: {:?}", pos);
        }
        self.x = x;
        self.y = y;
        self.update();
        Ok(())
    }
    fn move_within_line(&mut self, off: i16) -> io::Result<()> {
        self.op()?;
        let x = self.x.min(self.w - 1) as i64 + off as i64;
        if x < 0 || x > self.w as i64 {
            panic!("MONITOR: cursor moved outside of the line: {} by {}", self.x, off);
        }
        self.x = (x as usize).min(self.w - 1);
        self.update();
        Ok(())
    }
    fn print(&mut self, text: &str) -> io::Result<()> {
        self.op()?;
        self.put(text);
        self.text.push('\n');
        self.newline();
        self.update();
        Ok(())
    }
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(None)
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        let shown = self.visible();
        let mut hook = self.hook.take().expect("no hook");
        self.st.keys_read += 1;
        let r = hook(&shown, &self.st);
        self.hook = Some(hook);
        r
    }
    fn show_cursor(&mut self) -> io::Result<()> {
        self.op()?;
        self.cursor = true;
        self.update();
        Ok(())
    }
    fn size_chars(&self) -> io::Result<CharsXY> {
        Ok(CharsXY::new(self.w as u16, self.h as u16))
    }
    fn write(&mut self, text: &str) -> io::Result<()> {
        self.op()?;
        self.put(text);
        self.update();
        Ok(())
    }
    fn sync_now(&mut self) -> io::Result<()> {
        self.op()?;
        self.shown = self.snap();
        Ok(())
    }
    fn set_sync(&mut self, enabled: bool) -> io::Result<bool> {
        self.op()?;
        let p = self.st.sync;
        self.st.sync = enabled;
        self.shown = self.snap();
        Ok(p)
    }
}
