//! The camera as seen over I2C: RAM, EEPROM and registers with arbitrary contents, a transaction
//! log, and one transfer (chosen by the harness) that fails.
use crate::vf::*;
use embedded_hal::blocking::i2c;

pub const RAM: usize = 0x0400;
pub const EEPROM: usize = 0x2400;
pub const STATUS: usize = 0x8000;
pub const CONTROL: usize = 0x800D;
pub const I2CCFG: usize = 0x800F;
pub const NEVER: usize = usize::MAX;
pub const LOG: usize = 64;

#[derive(Clone, Copy)]
pub struct Op {
    pub write: bool,
    pub device: u8,
    pub reg: usize,
    pub len: usize,
    pub data: u16,
}
pub struct Bus {
    pub ram: [u8; 2048],
    pub eeprom: [u8; 1664],
    pub status: u16,
    pub control: u16,
    pub i2ccfg: u16,
    /// transfers so far, in order
    pub n: usize,
    pub log: [Op; LOG],
    /// index of the transfer that fails
    pub fail_at: usize,
    /// something outside the device's memory map was accessed
    pub stray: bool,
    /// the driver is waiting for data: every status read returns whatever the camera holds by then
    pub polling: bool,
    /// ... from the next status write on
    pub start_polling: bool,
    pub device: u8,
    pub last: u16,
    pub polls_may_fail: bool,
}
/// The error the bus reports.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct BusError(pub u8);

#[derive(Clone, Copy)]
pub struct H(pub *mut Bus);

impl Bus {
    #[inline(always)]
    pub fn regs(status: u16, control: u16) -> Bus {
        Bus {
            ram: [0; 2048],
            eeprom: [0; 1664],
            status,
            control,
            i2ccfg: 0,
            n: 0,
            log: [Op { write: false, device: 0, reg: 0, len: 0, data: 0 }; LOG],
            fail_at: NEVER,
            stray: false,
            polling: false,
            start_polling: false,
            device: 0,
            last: 0,
            polls_may_fail: false,
        }
    }
    #[inline(always)]
    pub fn any() -> Bus {
        Bus::regs(any_u16("status"), any_u16("control"))
    }
    #[inline(always)]
    pub fn any_ram(&mut self) {
        bytes(&mut self.ram, "ram");
    }
    #[inline(always)]
    pub fn word(&self, addr: usize) -> i16 {
        let i = (addr - RAM) * 2;
        i16::from_be_bytes([self.ram[i], self.ram[i + 1]])
    }
    /// one status read of the wait for data; no counters, so that the ghost state after any number of
    /// polls is the one after the last poll
    #[inline(always)]
    fn poll(&mut self, device: u8, bytes_out: &[u8], buffer: &mut [u8]) -> Result<(), BusError> {
        check(bytes_out.len() == 2 && bytes_out[0] == 0x80 && bytes_out[1] == 0 && buffer.len() == 2 && device == self.device, "C16.wait.only_reads_the_status");
        check(self.last & 8 == 0, "C16.wait.ends_with_the_first_status_showing_data");
        if self.polls_may_fail && any_bool("poll fails") {
            bytes(buffer, "garbage");
            self.start_polling = false;
            return Err(BusError(0xEE));
        }
        check(self.start_polling, "C17.no_transfer_after_the_failed_one");
        let v = any_u16("polled status");
        self.last = v;
        if buffer.len() == 2 {
            buffer.copy_from_slice(&v.to_be_bytes());
        }
        Ok(())
    }
    #[inline(always)]
    pub fn reset(&mut self) {
        self.n = 0;
        self.fail_at = NEVER;
    }
}

impl i2c::WriteRead for H {
    type Error = BusError;
    #[inline(never)]
    fn write_read(&mut self, device: u8, bytes_out: &[u8], buffer: &mut [u8]) -> Result<(), BusError> {
        let b = unsafe { &mut *self.0 };
        if b.polling {
            return b.poll(device, bytes_out, buffer);
        }
        let i = b.n;
        b.n += 1;
        if bytes_out.len() != 2 || i >= LOG {
            b.stray = true;
            return Ok(());
        }
        let reg = (bytes_out[0] as usize) << 8 | bytes_out[1] as usize;
        let len = buffer.len();
        b.log[i] = Op { write: false, device, reg, len, data: 0 };
        if i == b.fail_at {
            // a failed transfer may leave anything in the caller's buffer
            bytes(buffer, "garbage");
            return Err(BusError(i as u8));
        }
        if reg >= RAM && reg * 2 + len <= (RAM + 1024) * 2 {
            let o = (reg - RAM) * 2;
            buffer.copy_from_slice(&b.ram[o..o + len]);
        } else if reg >= EEPROM && reg * 2 + len <= (EEPROM + 832) * 2 {
            let o = (reg - EEPROM) * 2;
            buffer.copy_from_slice(&b.eeprom[o..o + len]);
        } else if len == 2 && (reg == STATUS || reg == CONTROL || reg == I2CCFG) {
            let v = if reg == STATUS {
                b.status
            } else if reg == CONTROL {
                b.control
            } else {
                b.i2ccfg
            };
            buffer.copy_from_slice(&v.to_be_bytes());
        } else {
            b.stray = true;
        }
        Ok(())
    }
}
impl i2c::Write for H {
    type Error = BusError;
    #[inline(never)]
    fn write(&mut self, device: u8, bytes_out: &[u8]) -> Result<(), BusError> {
        let b = unsafe { &mut *self.0 };
        check(!b.polling, "C16.wait.only_reads_the_status");
        let i = b.n;
        b.n += 1;
        if bytes_out.len() != 4 || i >= LOG {
            b.stray = true;
            return Ok(());
        }
        let reg = (bytes_out[0] as usize) << 8 | bytes_out[1] as usize;
        let data = (bytes_out[2] as u16) << 8 | bytes_out[3] as u16;
        b.log[i] = Op { write: true, device, reg, len: 2, data };
        if i == b.fail_at {
            return Err(BusError(i as u8));
        }
        if reg == STATUS {
            b.status = data;
            b.polling = b.start_polling;
        } else if reg == CONTROL {
            b.control = data;
        } else if reg == I2CCFG {
            b.i2ccfg = data;
        } else {
            b.stray = true;
        }
        Ok(())
    }
}
