//! All ways to encode a message.

use crate::util::*;

/// One way to split `args` into chunks of frames, chosen exhaustively among all with
/// at most `max_frames` frames. A frame's first chunk continues the last argument of
/// the previous frame (empty if that argument was complete).
pub fn free_encoding(args: &[&[u8]], max_frames: usize) -> Vec<Vec<Vec<u8>>> {
    let mut frames: Vec<Vec<Vec<u8>>> = vec![];
    let mut cur: Vec<Vec<u8>> = vec![];
    let (mut arg, mut off) = (0, 0);
    loop {
        let left = args[arg].len() - off;
        let last_frame = frames.len() + 1 == max_frames;
        // how much of the argument goes into this chunk
        let n = if last_frame { left } else { free(left + 1, "chunk") };
        cur.push(args[arg][off..off + n].to_vec());
        off += n;
        let done = off == args[arg].len();
        let last_arg = arg + 1 == args.len();
        // what follows: the next argument or end of message (if complete), or the
        // next frame
        let next_frame = if !done {
            true
        } else if last_frame {
            false
        } else {
            free(2, "next frame") == 1
        };
        if next_frame {
            frames.push(std::mem::take(&mut cur));
        } else if last_arg {
            frames.push(cur);
            return frames;
        } else {
            arg += 1;
            off = 0;
        }
    }
}

pub fn show_encoding(f: &[Vec<Vec<u8>>]) -> String {
    f.iter()
        .map(|f| f.iter().map(|c| c.len().to_string()).collect::<Vec<_>>().join("+"))
        .collect::<Vec<_>>()
        .join("/")
}
