//! Trees assembled by hand, of any shape, and rows that hit their thresholds.

use crate::gen::{next_down, next_up};
use crate::rng::Rng;
use common::question::Question;
use multi_target_decision_tree::leaf::Leaf;
use multi_target_decision_tree::node::TreeNode;

pub struct Shape {
    pub c: usize,
    pub depth: usize,
    /// a degenerate chain instead of a bushy tree
    pub chain: bool,
    pub values: Vec<f64>,
}

impl Shape {
    pub fn any(rng: &mut Rng) -> Shape {
        let c = if rng.chance(0.03) { *rng.pick(&[255, 256, 257, 300, 70_000]) } else { rng.range(1, 6) };
        let chain = rng.chance(0.1);
        let depth = if chain { rng.range(1, 300) } else { rng.range(0, 6) };
        let m = rng.range(1, 6);
        let values = (0..m)
            .map(|_| match rng.below(7) {
                0 => 0.0,
                1 => -0.0,
                2 => rng.int(-4, 4) as f64,
                3 => rng.normal(),
                4 => *rng.pick(&[1e300, -1e300, f64::MIN_POSITIVE, f64::from_bits(1), -1e-310]),
                5 => *rng.pick(&[0.1, 0.2, 0.30000000000000004, 16777217.0, 4294967297.0, 2.5000000001]),
                _ => 1.0 + rng.unit(),
            })
            .collect();
        Shape {
            c,
            depth,
            chain,
            values,
        }
    }

    pub fn tree<L: Leaf>(&self, rng: &mut Rng, leaf: &mut dyn FnMut(&mut Rng) -> L) -> TreeNode<L> {
        self.grow(rng, leaf, 0)
    }

    fn question(&self, rng: &mut Rng) -> Question {
        let col = match rng.below(4) {
            0 => 0,
            1 => self.c - 1,
            _ => rng.below(self.c),
        };
        let v = *rng.pick(&self.values);
        Question::new(col as u32, v)
    }

    fn grow<L: Leaf>(&self, rng: &mut Rng, leaf: &mut dyn FnMut(&mut Rng) -> L, level: usize) -> TreeNode<L> {
        if level >= self.depth || (!self.chain && level > 0 && rng.chance(0.25)) {
            return TreeNode::leaf_node(self.question(rng), leaf(rng));
        }
        let q = self.question(rng);
        if self.chain {
            let one = TreeNode::leaf_node(self.question(rng), leaf(rng));
            let deep = self.grow(rng, leaf, level + 1);
            if rng.chance(0.5) {
                TreeNode::new(q, Box::new(one), Box::new(deep))
            } else {
                TreeNode::new(q, Box::new(deep), Box::new(one))
            }
        } else {
            let a = self.grow(rng, leaf, level + 1);
            let b = self.grow(rng, leaf, level + 1);
            TreeNode::new(q, Box::new(a), Box::new(b))
        }
    }

    /// A value on, just below or just above a threshold.
    pub fn one(&self, rng: &mut Rng) -> f64 {
        let v = *rng.pick(&self.values);
        if rng.chance(0.01) {
            return *rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN]);
        }
        match rng.below(5) {
            0 => next_up(v),
            1 => next_down(v),
            2 => rng.normal() * 3.0,
            3 => -v,
            _ => v,
        }
    }

    pub fn row(&self, rng: &mut Rng) -> Vec<f64> {
        (0..self.c).map(|_| self.one(rng)).collect()
    }
}
