// B03: approximate boosting is stagewise on softmax residuals.
use vharness::boost::*;
use vharness::engine::*;

fn main() {
    let th = thorough();
    main_run(Check {
        id: "B03",
        level: "model_checking",
        rule: "every data set of the listed small spaces (all weak orderings of each feature column, all class assignments), level limits 0,1,2,n, numbers of iterations, learning rates and both builders; plus structured larger data; every tree is walked in step with the partition states of the residuals the model holds before it".into(),
        assumptions: vec![
            "feature values are not NaN; number_of_classes equals the label length".into(),
            "residuals are compared up to the rounding of the accumulated scores; a leaf whose divisor is within that rounding of zero only has to be finite".into(),
        ],
        families: class_families(Loss::SoftmaxApprox, th),
        pool: true,
        bounds: "complete: n<=4 (5 thorough), K<=4 (6), up to 9 iterations; structured up to 300 (1200) rows, sizes up to 1025 rows, 257 columns, 257 classes, up to 600 iterations, rates 1e-300 to 2; two classes tied at every pair of places of up to 40 (80) classes; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) and coarse settings up to a cost bound".into(),
    });
}
