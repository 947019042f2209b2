; ModuleID = 'probe1.a1b5db1cb3303164-cgu.0'
source_filename = "probe1.a1b5db1cb3303164-cgu.0"
target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
target triple = "x86_64-unknown-linux-gnu"

@alloc_4aead6e2018a46d0df208d5729447de7 = private unnamed_addr constant [27 x i8] c"assertion failed: step != 0", align 1, !guid !0
@alloc_0822bccf34c8fc6f70c4c5f5401e7312 = private unnamed_addr constant [120 x i8] c"/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/src/rust/library/core/src/iter/adapters/step_by.rs\00", align 1, !guid !1
@alloc_34c2876236d7ce25ae0754f984b402fa = private unnamed_addr constant <{ ptr, [16 x i8] }> <{ ptr @alloc_0822bccf34c8fc6f70c4c5f5401e7312, [16 x i8] c"w\00\00\00\00\00\00\00$\00\00\00\09\00\00\00" }>, align 8, !guid !2

; probe1::probe
; Function Attrs: nonlazybind uwtable
define void @_RNvCsdSMom4mbKM2_6probe15probe() unnamed_addr #0 !guid !7 {
start:
  %_2 = alloca [24 x i8], align 8
  %_1 = alloca [24 x i8], align 8
; call <core::ops::range::Range<i32> as core::iter::traits::iterator::Iterator>::step_by
  call void @_RNvYINtNtNtCskADBYZwJmSU_4core3ops5range5RangelENtNtNtNtB9_4iter6traits8iterator8Iterator7step_byCsdSMom4mbKM2_6probe1(ptr sret([24 x i8]) align 8 %_2, i32 0, i32 10, i64 2) #5
; call <core::iter::adapters::step_by::StepBy<core::ops::range::Range<i32>> as core::iter::traits::iterator::Iterator>::rev
  call void @_RNvYINtNtNtNtCskADBYZwJmSU_4core4iter8adapters7step_by6StepByINtNtNtBb_3ops5range5RangelEENtNtNtB9_6traits8iterator8Iterator3revCsdSMom4mbKM2_6probe1(ptr sret([24 x i8]) align 8 %_1, ptr align 8 %_2) #5
  ret void
}

; <core::iter::adapters::step_by::StepBy<core::ops::range::Range<i32>>>::new
; Function Attrs: inlinehint nonlazybind uwtable
define void @_RNvMNtNtNtCskADBYZwJmSU_4core4iter8adapters7step_byINtB2_6StepByINtNtNtB8_3ops5range5RangelEE3newCsdSMom4mbKM2_6probe1(ptr sret([24 x i8]) align 8 %_0, i32 %iter.0, i32 %iter.1, i64 %step) unnamed_addr #1 personality ptr @rust_eh_personality !guid !8 {
start:
  %_7 = alloca [1 x i8], align 1
  store i8 1, ptr %_7, align 1
  %0 = icmp eq i64 %step, 0
  br i1 %0, label %bb2, label %bb1

bb2:                                              ; preds = %start
; call core::panicking::panic
  call void @_RNvNtCskADBYZwJmSU_4core9panicking5panic(ptr @alloc_4aead6e2018a46d0df208d5729447de7, i64 27, ptr align 8 @alloc_34c2876236d7ce25ae0754f984b402fa) #6
  unreachable

bb1:                                              ; preds = %start
  store i8 0, ptr %_7, align 1
; call <core::ops::range::Range<i32> as core::iter::adapters::step_by::SpecRangeSetup<core::ops::range::Range<i32>>>::setup
  %1 = call { i32, i32 } @_RNvXs5_NtNtNtCskADBYZwJmSU_4core4iter8adapters7step_byINtNtNtBb_3ops5range5RangelEINtB5_14SpecRangeSetupBQ_E5setupCsdSMom4mbKM2_6probe1(i32 %iter.0, i32 %iter.1, i64 %step) #5
  %iter.01 = extractvalue { i32, i32 } %1, 0
  %iter.12 = extractvalue { i32, i32 } %1, 1
  br label %bb3

bb3:                                              ; preds = %bb1
  %_6 = sub i64 %step, 1
  store i32 %iter.01, ptr %_0, align 8
  %2 = getelementptr inbounds i8, ptr %_0, i64 4
  store i32 %iter.12, ptr %2, align 4
  %3 = getelementptr inbounds i8, ptr %_0, i64 8
  store i64 %_6, ptr %3, align 8
  %4 = getelementptr inbounds i8, ptr %_0, i64 16
  store i8 1, ptr %4, align 8
  ret void

bb4:                                              ; No predecessors!
  unreachable

bb5:                                              ; No predecessors!
  unreachable

bb6:                                              ; No predecessors!
  unreachable
}

; <core::ops::range::Range<i32> as core::iter::adapters::step_by::SpecRangeSetup<core::ops::range::Range<i32>>>::setup
; Function Attrs: inlinehint nonlazybind uwtable
define { i32, i32 } @_RNvXs5_NtNtNtCskADBYZwJmSU_4core4iter8adapters7step_byINtNtNtBb_3ops5range5RangelEINtB5_14SpecRangeSetupBQ_E5setupCsdSMom4mbKM2_6probe1(i32 %inner.0, i32 %inner.1, i64 %_step) unnamed_addr #1 !guid !9 {
start:
  %0 = insertvalue { i32, i32 } poison, i32 %inner.0, 0
  %1 = insertvalue { i32, i32 } %0, i32 %inner.1, 1
  ret { i32, i32 } %1
}

; <core::ops::range::Range<i32> as core::iter::traits::iterator::Iterator>::step_by
; Function Attrs: inlinehint nonlazybind uwtable
define void @_RNvYINtNtNtCskADBYZwJmSU_4core3ops5range5RangelENtNtNtNtB9_4iter6traits8iterator8Iterator7step_byCsdSMom4mbKM2_6probe1(ptr sret([24 x i8]) align 8 %_0, i32 %self.0, i32 %self.1, i64 %step) unnamed_addr #1 !guid !10 {
start:
; call <core::iter::adapters::step_by::StepBy<core::ops::range::Range<i32>>>::new
  call void @_RNvMNtNtNtCskADBYZwJmSU_4core4iter8adapters7step_byINtB2_6StepByINtNtNtB8_3ops5range5RangelEE3newCsdSMom4mbKM2_6probe1(ptr sret([24 x i8]) align 8 %_0, i32 %self.0, i32 %self.1, i64 %step) #5
  ret void
}

; <core::iter::adapters::step_by::StepBy<core::ops::range::Range<i32>> as core::iter::traits::iterator::Iterator>::rev
; Function Attrs: inlinehint nonlazybind uwtable
define void @_RNvYINtNtNtNtCskADBYZwJmSU_4core4iter8adapters7step_by6StepByINtNtNtBb_3ops5range5RangelEENtNtNtB9_6traits8iterator8Iterator3revCsdSMom4mbKM2_6probe1(ptr sret([24 x i8]) align 8 %_0, ptr align 8 %self) unnamed_addr #1 !guid !11 {
start:
  call void @llvm.memcpy.p0.p0.i64(ptr align 8 %_0, ptr align 8 %self, i64 24, i1 false)
  ret void
}

; Function Attrs: nounwind nonlazybind uwtable
declare i32 @rust_eh_personality(i32, i32, i64, ptr, ptr) unnamed_addr #2

; core::panicking::panic
; Function Attrs: cold noinline noreturn nonlazybind uwtable
declare void @_RNvNtCskADBYZwJmSU_4core9panicking5panic(ptr, i64, ptr align 8) unnamed_addr #3

; Function Attrs: nocallback nofree nosync nounwind willreturn memory(argmem: readwrite)
declare void @llvm.memcpy.p0.p0.i64(ptr noalias writeonly captures(none), ptr noalias readonly captures(none), i64, i1 immarg) #4

attributes #0 = { nonlazybind uwtable "probe-stack"="inline-asm" "target-cpu"="x86-64" }
attributes #1 = { inlinehint nonlazybind uwtable "probe-stack"="inline-asm" "target-cpu"="x86-64" }
attributes #2 = { nounwind nonlazybind uwtable "probe-stack"="inline-asm" "target-cpu"="x86-64" }
attributes #3 = { cold noinline noreturn nonlazybind uwtable "probe-stack"="inline-asm" "target-cpu"="x86-64" }
attributes #4 = { nocallback nofree nosync nounwind willreturn memory(argmem: readwrite) }
attributes #5 = { inlinehint }
attributes #6 = { noinline noreturn }

!llvm.module.flags = !{!3, !4, !5}
!llvm.ident = !{!6}

!0 = !{i64 1351386518960747365}
!1 = !{i64 1571993185722179465}
!2 = !{i64 -2356795410778547741}
!3 = !{i32 8, !"PIC Level", i32 2}
!4 = !{i32 2, !"RtLibUseGOT", i32 1}
!5 = !{i32 7, !"uwtable", i32 2}
!6 = !{!"rustc version 1.99.1 (58cf8f9c3 2026-10-13)"}
!7 = !{i64 1279517107239737257}
!8 = !{i64 4621355890947436897}
!9 = !{i64 1213107423878075188}
!10 = !{i64 7506399155897582847}
!11 = !{i64 2591292631357697436}
